// Unicode 17 data from Node's ICU 78: gc=M, ID_Start, ID_Continue, NFD, NFC-of-self, assigned, NFC quick info
const out=[]; 
if(process.versions.unicode!=='17.0') throw 'bad version';
for(let c=0;c<0x110000;c++){ if(c>=0xd800&&c<0xe000) continue; const s=String.fromCodePoint(c);
 const hex=x=>[...x].map(y=>y.codePointAt(0).toString(16).toUpperCase()).join(' ');
 const f=(/^\p{M}$/u.test(s)?'M':'-')+(/^\p{ID_Start}$/u.test(s)?'S':'-')+(/^\p{ID_Continue}$/u.test(s)?'C':'-')+(/^\p{Cn}$/u.test(s)?'U':'-')+(/^\p{Mn}$/u.test(s)?'n':'-');
 out.push(c.toString(16).toUpperCase()+'\t'+f+'\t'+hex(s.normalize('NFD'))+'\t'+hex(s.normalize('NFC'))); }
require('fs').writeFileSync(process.argv[2],out.join('\n')+'\n');
