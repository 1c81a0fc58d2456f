#!/bin/bash
# builds the extractor and the replay harness (with /repo's crate); each check does so again if need be
cd "$(dirname "$0")" || exit 1
(cd extract && cargo build --offline) && (cd replay && cargo build --offline)
