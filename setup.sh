#!/bin/bash
set -e
cd "$(dirname "$0")"
(cd extract && cargo build --offline --release)
(cd harness && cargo build --offline)
