cd "$(dirname "$0")"; here=$PWD; . ./lib.sh; build "${1:-mc}" $2
