#!/bin/bash
for i in "$@"; do bash "$(dirname "$0")"/plant.sh $i; done
