#!/bin/sh
# builds the MIR-dumping driver and a first dump; every check rebuilds what it needs by itself
cd "$(dirname "$0")" && exec python3-vt -m vlib.dump
