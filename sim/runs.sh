#!/bin/bash
# runs of the quick tier, about 20 to 50 seconds on 8 cores
case "$1" in
C01) echo 800000 ;;
C06) echo 700000 ;;
C02 | C03 | C12 | C15) echo 500000 ;;
C05) echo 400000 ;;
C07 | C08) echo 300000 ;;
C11 | C13) echo 200000 ;;
C09) echo 120000 ;;
C14) echo 180000 ;;
C04) echo 100000 ;;
C10 | C16) echo 60000 ;;
C23) echo 150000 ;;
C24) echo 40000 ;;
C25) echo 3000 ;;
C28) echo 25000 ;;
C26) echo 250000 ;;
C27) echo 150000 ;;
C17) echo 8000 ;;
*) echo 40000 ;;
esac
