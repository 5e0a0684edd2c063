#!/bin/sh
# runs every claimed (or given) check and prints the time it takes
cd "$(dirname "$0")/.."
for i in ${@:-$(ls drivers/C*.cpp | sed 's/.*\///;s/\.cpp//')}; do
  s=$(date +%s)
  ./check $i > /tmp/all.$i.log 2>&1; rc=$?
  echo "$i rc=$rc $(($(date +%s)-s))s $(tail -1 /tmp/all.$i.log | cut -c1-150)"
done
