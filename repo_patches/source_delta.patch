From 0ed5aacfaae7f8f8f721c634f8eabdd19b10674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 1/6] fix: do not count an empty reactive negotiation as
 multiple choices

---
 reactive/reactive.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/reactive/reactive.go b/reactive/reactive.go
index 540b9e7..adc9a80 100644
--- a/reactive/reactive.go
+++ b/reactive/reactive.go
@@ -96,8 +96,6 @@ func (n Negotiator) Negotiate(
 	defer func() {
 		if err != nil {
 			n.scope.Counter(scopeNameReactiveErrorCounter).Inc(1)
-		} else {
-			n.scope.Counter(scopeNameReactiveMultipleChoicesCounter).Inc(1)
 		}
 	}()
 
@@ -141,6 +139,7 @@ func (n Negotiator) Negotiate(
 			zap.String("content-language", clang),
 			zap.String("content-charset", cc),
 			zap.Int("status", status))
+		n.scope.Counter(scopeNameReactiveMultipleChoicesCounter).Inc(1)
 	}
 	return err
 }
-- 
2.43.0


From a364cb5f219c0d13618666932d2bdad630bdbf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 2/6] fix: apply stacked content codings in order and close
 every writer

---
 representation/base.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index abbc543..909e2e0 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -182,13 +182,28 @@ func (r *Base) encode(b []byte) (bb []byte, err error) {
 		writer             io.WriteCloser = &closeableBuffer{&buf}
 		encodings                         = r.ContentEncoding()
 		writerConstructors                = defaultEncodingWriters
+		writers            []io.WriteCloser
 	)
 
+	// close every writer, each flushing into the one opened before it.
+	defer func() {
+		for idx := len(writers) - 1; idx >= 0; idx-- {
+			if cerr := writers[idx].Close(); err == nil {
+				err = cerr
+			}
+		}
+		if err == nil {
+			bb = buf.Bytes()
+		}
+	}()
+
 	if len(r.encodingWriters) > 0 {
 		writerConstructors = r.encodingWriters
 	}
 
-	for _, e := range encodings {
+	// codings are applied in the order listed, so the last one is innermost.
+	for idx := len(encodings) - 1; idx >= 0; idx-- {
+		e := encodings[idx]
 		if _, ok := writerConstructors[strings.ToLower(e)]; !ok {
 			err = ErrUnsupportedContentEncoding
 			return
@@ -196,14 +211,9 @@ func (r *Base) encode(b []byte) (bb []byte, err error) {
 		if writer, err = writerConstructors[strings.ToLower(e)](writer); err != nil {
 			return
 		}
+		writers = append(writers, writer)
 	}
-	if _, err = writer.Write(b); err != nil {
-		return
-	}
-	if err = writer.Close(); err != nil {
-		return
-	}
-	bb = buf.Bytes()
+	_, err = writer.Write(b)
 	return
 }
 
-- 
2.43.0


From 55d693bb2a3b28c19f62be2a917f01464af841a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 3/6] fix: report every decoding failure and close each reader
 once

---
 representation/base.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index 909e2e0..6ef0402 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -263,9 +263,15 @@ func (r *Base) decode(b []byte) (bb []byte, err error) {
 		if reader, err = readerConstructors[strings.ToLower(e)](reader); err != nil {
 			return
 		}
-		defer func() {
-			err = reader.Close()
-		}()
+		// read each coding to its end, so that damage to any of them is found.
+		bb, err = io.ReadAll(reader)
+		if cerr := reader.Close(); err == nil {
+			err = cerr
+		}
+		if err != nil {
+			return
+		}
+		reader = &closeableBuffer{bytes.NewBuffer(bb)}
 	}
 	if bb, err = io.ReadAll(reader); err != nil {
 		return
-- 
2.43.0


From 16d2692b629621c738ba8cd39e38a703b3881168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 4/6] fix: measure each variant once when choosing the smallest

---
 proactive/apache_httpd.go | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index d2237af..731bc09 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -133,30 +133,26 @@ func (c httpd) Choose(
 var (
 	// smallestContentLength selects the variants with the smallest content length.
 	smallestContentLength filter = func(variants representation.Set) (representation.Set, error) {
-		variants.Sort(func(i, j int) bool {
-			// sort smallest to largest.
-			var f, s int
-			if bytes, err := variants[i].Bytes(); err == nil {
-				f = len(bytes)
+		// serialize each variant once, as its length can change in between.
+		lengths := make([]int, variants.Size())
+		lowestLength := 0
+		for i, v := range variants {
+			bytes, err := v.Bytes()
+			if err != nil {
+				return representation.EmptySet, err
 			}
-			if bytes, err := variants[j].Bytes(); err == nil {
-				s = len(bytes)
+			lengths[i] = len(bytes)
+			if i == 0 || lengths[i] < lowestLength {
+				lowestLength = lengths[i]
 			}
-			return f < s
-		})
-		lowest := variants.First()
-		lowestBytes, err := lowest.Bytes()
-		if err != nil {
-			return representation.EmptySet, err
 		}
-		lowestLength := len(lowestBytes)
-		return variants.Where(func(v representation.RankedRepresentation) bool {
-			var length int
-			if bytes, err := v.Bytes(); err == nil {
-				length = len(bytes)
+		var smallest representation.Set
+		for i, v := range variants {
+			if lengths[i] == lowestLength {
+				smallest = append(smallest, v)
 			}
-			return length == lowestLength
-		}), nil
+		}
+		return smallest, nil
 	}
 
 	// bestEncoding selects the variants with the best encoding.
-- 
2.43.0


From 56ebaca1c32b95feeed6bb783df7848d712e27f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 5/6] fix: answer an empty transparent negotiation with no
 content instead of panicking

---
 transparent/transparent.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 98fc0bc..94473e0 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -127,6 +127,13 @@ func (n Negotiator) Negotiate(
 		}
 	}()
 
+	if len(reps) == 0 {
+		status := http.StatusNoContent
+		ctx.ResponseWriter.WriteHeader(status)
+		n.logger.Info("no representations to negotiate", zap.Int("status", status))
+		return err
+	}
+
 	if len(reps) > n.maximumVariantListSize {
 		return ErrVariantListSizeExceeded
 	}
-- 
2.43.0


From b75506c252bbc75b436f4478e0084ad387f41041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 6/6] fix: report malformed features as an error instead of
 panicking

---
 transparent/rvsa.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/transparent/rvsa.go b/transparent/rvsa.go
index 605609e..00056e4 100644
--- a/transparent/rvsa.go
+++ b/transparent/rvsa.go
@@ -79,7 +79,10 @@ func (c rvsa1) Choose(
 		qt, twc := c.acceptQuality(rep, a)
 		qc, cwc := c.acceptCharsetQuality(rep, ac)
 		ql, lwc := c.acceptLanguageQuality(rep, al)
-		qf, fwc := c.acceptFeatureQuality(rep, af)
+		qf, fwc, err := c.acceptFeatureQuality(rep, af)
+		if err != nil {
+			return nil, err
+		}
 
 		isDefinite := !twc && !cwc && !lwc && !fwc
 		variants = append(variants, representation.RankedRepresentation{
@@ -194,22 +197,22 @@ func (c rvsa1) acceptCharsetQuality(
 func (c rvsa1) acceptFeatureQuality(
 	rep representation.Representation,
 	acceptFeature header.AcceptFeatures,
-) (header.QualityValue, bool) {
+) (header.QualityValue, bool, error) {
 	var usedWildcard bool
 	if len(rep.ContentFeatures()) == 0 {
-		return header.QualityValueMaximum, false
+		return header.QualityValueMaximum, false, nil
 	}
 	if acceptFeature.IsEmpty() {
-		return header.QualityValueMaximum, true
+		return header.QualityValueMaximum, true, nil
 	}
 	featureList, err := header.NewFeatureList(rep.ContentFeatures())
 	if err != nil {
-		panic(err) // TODO(FREER)
+		return header.QualityValueMinimum, false, err
 	}
 	degradation := featureList.QualityDegradation(
 		acceptFeature.AsFeatureSets(),
 	)
-	return header.QualityValue(degradation), usedWildcard // TODO(FREER)
+	return header.QualityValue(degradation), usedWildcard, nil // TODO(FREER)
 }
 
 func (c rvsa1) overallQuality(v representation.RankedRepresentation) float32 {
-- 
2.43.0

