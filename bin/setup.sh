#!/bin/bash
# Builds the simulator once, both kinds, so that the checks find a warm cache.
V=$(cd "$(dirname "$0")/.." && pwd)
bash "$V/bin/build.sh" plain && bash "$V/bin/build.sh" race
