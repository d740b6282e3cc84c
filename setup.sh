#!/bin/bash
cd "$(dirname "$0")" && exec bash ./build.sh
