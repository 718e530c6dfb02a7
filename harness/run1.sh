#!/bin/bash
# run1.sh BIN args...: one monitor run, output cut short (for use by hand)
export TSAN_OPTIONS=halt_on_error=1:report_thread_leaks=0:exitcode=66
export ASAN_OPTIONS=detect_leaks=0
"$@" 2>&1 | cut -c1-220 | head -${LINES_MAX:-25}
