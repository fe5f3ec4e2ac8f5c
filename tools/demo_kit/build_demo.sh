# Sourced by demo.sh, in the repository: builds demo.cpp with the named sources (all of them when none is
# named) against stand-ins for ROS, in a scratch directory. Nothing is written elsewhere.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -r "$scratch"' EXIT
python3 "$here/kit/gen_msgs.py" "$repo" "$scratch/msgs" > "$scratch/log" 2>&1 || { cat "$scratch/log"; exit 99; }
build() {
  local names=("$@") f
  [ $# -gt 0 ] || names=($(cd "$repo/src" && ls *.cpp))
  local list=("$here/demo.cpp" "$here/kit/world.cpp")
  for f in "${names[@]}"; do list+=("$repo/src/$f"); done
  local i=0
  # KIT_SANITIZE: a sanitizer for the sources of the repository and the demonstration, not for the world around
  local flag=; [ -z "$KIT_SANITIZE" ] || flag="-g1 -fsanitize=$KIT_SANITIZE"
  printf '%s\n' "${list[@]}" | while read -r f; do
      i=$((i+1)); case $f in */kit/*) printf '%s\0%s\0%s\0' "$f" "$scratch/$i.o" "" ;; *) printf '%s\0%s\0%s\0' "$f" "$scratch/$i.o" "$flag" ;; esac
    done |
    xargs -0 -n3 -P8 bash -c 'g++ -std=c++17 -O1 -w $2 '"-I'$here/kit' -I'$here/kit/stubs' -I'$scratch/msgs' -I'$repo/include' -I/usr/include/eigen3"' -c "$0" -o "$1"' \
    || { echo "demo: compilation failed"; exit 99; }
  g++ $flag "$scratch"/*.o -o "$scratch/demo" -lceres -lglog -pthread || { echo "demo: linking failed"; exit 99; }
}
run() {
  local how=()
  if [ "$KIT_SANITIZE" = thread ]; then
    export TSAN_OPTIONS=halt_on_error=1:exitcode=66:report_bugs=1:report_thread_leaks=0
    # It does not like random addresses
    ! setarch x86_64 -R true 2> /dev/null || how=(setarch x86_64 -R)
  fi
  timeout 120 "${how[@]}" "$scratch/demo"
}
