#!/bin/bash
exec bash "$(dirname "$0")/tools/build_engine.sh"
