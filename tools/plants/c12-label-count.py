PROPERTY='C12'
NEEDS='the same field generated twice in one process'
BREAKS='the numbers of the generated labels go on from the last field, so the outputs of two runs differ'
EDITS=[('src/buildzqfield.js', '        this.lastTmp=0;', '        this.lastTmp=ZqBuilder.lastTmp || 0;'), ('src/buildzqfield.js', '            self.lastTmp++;', '            ZqBuilder.lastTmp = ++self.lastTmp;')]
FILES={}
DEMO='''node -e '
const path=require("path"),bigInt=require("big-integer");
const {buildZqField}=require(path.join(process.argv[1],"index.js"));
(async()=>{const a=await buildZqField(bigInt(process.argv[2]),"Fr"),b=await buildZqField(bigInt(process.argv[2]),"Fr");
for(const k in a)if(a[k]!==b[k]){console.log(k+" differs");process.exit(1);}})().catch(e=>{console.error(e);process.exit(2)})' "$REPO" $BN_R
'''
