#!/bin/bash
# Dumps Unicode 17 data from the Go 1.27.3 vendored x/net/idna and x/text packages.
# usage: dump_go.sh OUT ; one line per code point: cp map-status joining bidi ccc
set -e
W=$(mktemp -d /tmp/godump.XXXXXX); OUT=$(realpath -m "$1")
V=/opt/veriftools/go1.27.3/src/vendor/golang.org/x
mkdir -p $W/idna $W/bidi $W/norm $W/bidirule $W/transform
cp $V/net/idna/*.go $W/idna/; cp $V/text/unicode/bidi/*.go $W/bidi/; cp $V/text/unicode/norm/*.go $W/norm/
cp $V/text/secure/bidirule/*.go $W/bidirule/; cp $V/text/transform/*.go $W/transform/
sed -i 's#golang.org/x/text/unicode/#ref/#; s#golang.org/x/text/secure/#ref/#; s#golang.org/x/text/#ref/#; s#golang.org/x/net/#ref/#' $W/*/*.go
cat > $W/go.mod <<E2
module ref
go 1.27
E2
cat > $W/idna/zz.go <<'E2'
package idna
import "strings"
func Dump(r rune) (string, int) {
	v, _ := trie.lookupString(string(r))
	if r>=0xd800 && r<0xe000 { return "X", 0 }
	x := info(v)
	jt := int(x.joinType())
	switch x.category() {
	case valid, validNV8, validXV8, deviation: return "V", jt
	case disallowedSTD3Valid: return "3V", jt
	case disallowedSTD3Mapped: 
		b := x.appendMapping(nil, string(r)); return "3M"+strings.TrimSpace(hex(string(b))), jt
	case ignored: return "I", jt
	case mapped:
		b := x.appendMapping(nil, string(r)); return "M"+strings.TrimSpace(hex(string(b))), jt
	}
	return "X", jt
}
func hex(s string) string { o:=""; for _,c := range s { o += " "+hx(c) }; return o }
func hx(c rune) string { const d="0123456789ABCDEF"; o:=""; for c>0 { o=string(d[c&15])+o; c>>=4 }; return o }
E2
cat > $W/main.go <<'E2'
package main
import ("fmt";"bufio";"os";"ref/idna";"ref/bidi";"ref/norm")
var cl = map[bidi.Class]string{bidi.L:"L",bidi.R:"R",bidi.EN:"EN",bidi.ES:"ES",bidi.ET:"ET",bidi.AN:"AN",bidi.CS:"CS",bidi.B:"B",bidi.S:"S",bidi.WS:"WS",bidi.ON:"ON",bidi.BN:"BN",bidi.NSM:"NSM",bidi.AL:"AL",bidi.LRO:"LRO",bidi.RLO:"RLO",bidi.LRE:"LRE",bidi.RLE:"RLE",bidi.PDF:"PDF",bidi.LRI:"LRI",bidi.RLI:"RLI",bidi.FSI:"FSI",bidi.PDI:"PDI"}
func main(){
 w:=bufio.NewWriter(os.Stdout); defer w.Flush()
 for r:=rune(0); r<0x110000; r++ {
  if r>=0xd800&&r<0xe000 {continue}
  m,j:=idna.Dump(r)
  p,_:=bidi.LookupRune(r)
  n:=norm.NFC.PropertiesString(string(r))
  fmt.Fprintf(w,"%X\t%s\t%d\t%s\t%d\t%X\n",r,m,j,cl[p.Class()],n.CCC(),[]rune(string(n.Decomposition())))
 }
}
E2
(cd $W && GOFLAGS=-mod=mod GO111MODULE=on go run . > $OUT)
/bin/rm -rf "$W"
