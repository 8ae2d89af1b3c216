# Sourced by check.sh: builds the shared library from the tree, and the wrappers in C, C++ and
# Cython through the generated headers. capi_build: 0 built; 1 the property is violated
# (explained in $capi_log); 2 no answer.
capi_log=$here/target-capi.log
capi_build() {
    local t=$here/target-capi w=$here/target-capi/wrap inc
    mkdir -p "$w"
    rm -rf "${t:?}"/release/.fingerprint/qcd-sme-*
    (cd /repo && CARGO_TARGET_DIR=$t cargo build --release --offline -p qcd-sme \
        --config 'profile.release.package."*".opt-level=0' --config 'profile.release.package."qcd-sme".opt-level=2' \
        --config 'profile.release.lto=false' --config 'profile.release.codegen-units=16') >"$capi_log" 2>&1 || return 2
    inc=/repo/target/release/include
    [ -d /repo/qcd-sme/target ] && inc=/repo/qcd-sme/target/release/include
    for h in qcd_sme.h qcd_sme.hpp qcd_sme.pxd; do
        [ -e "$inc/$h" ] || { echo "the build does not write $h" >"$capi_log"; return 1; }
        cp "$inc/$h" "$w/$h"
    done
    local lib=$t/release/libqcd_sme.so
    nm -D --defined-only "$lib" | awk '$2 == "T" {print $3}' | grep -vE '^(_|rust_)' | sort >"$w/exported"
    sort "$here/capi/symbols.txt" >"$w/expected"
    if [ -n "$(comm -23 "$w/expected" "$w/exported")" ]; then
        echo "symbols which are not exported: $(comm -23 "$w/expected" "$w/exported" | tr '\n' ' ')" >"$capi_log"
        return 1
    fi
    # every exported symbol is declared
    { echo '#include "qcd_sme.h"'; echo 'void *all[] = {'; sed 's/.*/(void *)&,/' "$w/exported"; echo '};'; } >"$w/all.c"
    { echo '#include "qcd_sme.hpp"'; echo 'void *all[] = {'; sed 's/.*/(void *)&,/' "$w/exported"; echo '};'; } >"$w/all.cpp"
    local opt="-O1 -fPIC -shared -I$w"
    local strict="-Werror=implicit-function-declaration -Werror=incompatible-pointer-types -Werror=int-conversion"
    local link="-L$t/release -lqcd_sme -Wl,-rpath,$t/release -Wl,--no-undefined"
    : >"$capi_log"
    gcc $opt $strict -o "$w/all.so" "$w/all.c" $link >>"$capi_log" 2>&1 || return 1
    g++ $opt -o "$w/allpp.so" "$w/all.cpp" $link >>"$capi_log" 2>&1 || return 1
    gcc $opt $strict -o "$w/wrap.so" "$here/capi/wrap.c" $link >>"$capi_log" 2>&1 || return 1
    g++ $opt -o "$w/wrappp.so" "$here/capi/wrap.cpp" $link >>"$capi_log" 2>&1 || return 1
    # Cython, where it is installed
    local py
    py=$(/usr/bin/python3 -c 'import sysconfig; print(sysconfig.get_paths()["include"])' 2>/dev/null)
    rm -rf "${w:?}/py"
    if command -v cython >/dev/null && [ -e "$py/Python.h" ]; then
        mkdir -p "$w/py"
        cython -3 -I"$w" "$here/capi/wrapx.pyx" -o "$w/py/wrapx.c" >>"$capi_log" 2>&1 || return 1
        gcc -O1 -w -fPIC -shared -I"$w" -I"$py" -o "$w/py/wrapx.so" "$w/py/wrapx.c" $link -Wl,--unresolved-symbols=ignore-all >>"$capi_log" 2>&1 || return 1
        if [ -e /repo/python/pyqcd_sme_so.pyx ]; then
            cython -3 -I"$w" /repo/python/pyqcd_sme_so.pyx -o "$w/py/pyqcd_sme_so.c" >>"$capi_log" 2>&1 || return 1
            gcc -O1 -w -fPIC -shared -I"$w" -I"$py" -o "$w/py/pyqcd_sme_so.so" "$w/py/pyqcd_sme_so.c" $link -Wl,--unresolved-symbols=ignore-all >>"$capi_log" 2>&1 || return 1
        fi
    fi
    # symbols of the library are bound when they are first called, by name
    return 0
}
