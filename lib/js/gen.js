// node gen.js REPO OUTDIR PRIME NAME : the repository's generator through its public JavaScript API.
"use strict";
const fs = require("fs");
const path = require("path");
const [, , repo, out, prime, name] = process.argv;
const {buildZqField} = require(path.join(repo, "index.js"));
const bigInt = require("big-integer");
(async () => {
    const s = await buildZqField(bigInt(prime), name);
    const b = path.join(out, name.toLowerCase());
    const files = {asm: ".asm", hpp: ".hpp", cpp: ".cpp", element_hpp: "_element.hpp", generic_cpp: "_generic.cpp", raw_generic_cpp: "_raw_generic.cpp", raw_arm64_s: "_raw_arm64.s"};
    for (const k in files) fs.writeFileSync(b + files[k], s[k], "utf8");
})().catch(e => { console.error(e); process.exit(1); });
