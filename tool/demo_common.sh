# usage: demo_build <out> ; builds the AST and parser sources of the current directory with demo.cpp
demo_build() {
  here="$1"; out="$2"; t="$3"; mkdir -p "$t/g/mizugaki/parser" "$t/o"
  flex -Cfe -o "$t/g/mizugaki/parser/sql_scanner_generated.cpp" src/mizugaki/parser/sql_scanner.ll || exit 3
  bison -Wnone -Wno-error=conflicts-sr -d -o "$t/g/mizugaki/parser/sql_parser_generated.cpp" src/mizugaki/parser/sql_parser.yy 2>/dev/null || exit 3
  ( find src/mizugaki/ast src/mizugaki/parser -name '*.cpp'; ls "$t"/g/mizugaki/parser/*.cpp; echo "$here/demo.cpp" ) > "$t/list"
  xargs -P 8 -I{} sh -c 'clang++ -std=c++17 -O0 -w -fno-strict-return -DSERIALIZE_REGION -I"$2/stubs" -Iinclude -Isrc -Isrc/mizugaki/parser -I"$3/g" -c "$1" -o "$3/o/$(echo "$1" | tr / _).o"' sh {} "$here" "$t" < "$t/list" || exit 3
  clang++ "$t"/o/*.o -o "$out" || exit 3
}
