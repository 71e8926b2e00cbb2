#!/bin/bash
# osfault.sh DIR: writes to DIR an instrumented copy of the files of package os
# and prints the entries of an overlay that replace the originals.
set -eu
dir=$1
here=$(cd "$(dirname "$0")" && pwd)
src=$(go env GOROOT)/src/os
cp "$here/zz_fault.go.txt" "$dir/os_zz_fault.go"
sed 's/^func (f \*File) Write(b \[\]byte) (n int, err error) {$/&\n\tif n, err, hit := zzWrite(f, b); hit {\n\t\treturn n, err\n\t}/
s/^func OpenFile(name string, flag int, perm FileMode) (\*File, error) {$/&\n\tif err := zzOpen(name, flag); err != nil {\n\t\treturn nil, err\n\t}/' "$src/file.go" > "$dir/os_file.go"
sed 's/^func (f \*File) Close() error {$/&\n\tif err, hit := zzClose(f); hit {\n\t\treturn err\n\t}/' "$src/file_posix.go" > "$dir/os_file_posix.go"
[ "$(grep -c 'zzWrite(\|zzOpen(' "$dir/os_file.go")" = 2 ] && grep -q 'zzClose(' "$dir/os_file_posix.go"
printf '"%s":"%s",\n' "$src/zz_fault.go" "$dir/os_zz_fault.go" "$src/file.go" "$dir/os_file.go" "$src/file_posix.go" "$dir/os_file_posix.go"
