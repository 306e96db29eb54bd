#!/bin/bash
# Builds the simulation once; every check builds again what /repo's working tree changed.
cd "$(dirname "$0")/sim" && cargo build --offline -q -p lite -p store -p akasim
