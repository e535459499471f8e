// node genmany.js REPO JOBS.json : generates several fields one after the other in one process; each job is
// {prime, name, dir, as: "string"|"bigint"|"number"|"native"}.
"use strict";
const fs = require("fs"), path = require("path");
const [, , repo, jobsFile] = process.argv;
const {buildZqField} = require(path.join(repo, "index.js"));
const bigInt = require("big-integer");
const files = {asm: ".asm", hpp: ".hpp", cpp: ".cpp", element_hpp: "_element.hpp", generic_cpp: "_generic.cpp", raw_generic_cpp: "_raw_generic.cpp", raw_arm64_s: "_raw_arm64.s"};
(async () => {
    const jobs = JSON.parse(fs.readFileSync(jobsFile, "utf8"));
    const write = (j, s) => { fs.mkdirSync(j.dir, {recursive: true}); for (const k in files) fs.writeFileSync(path.join(j.dir, j.name.toLowerCase() + files[k]), s[k], "utf8"); };
    const one = async j => write(j, await buildZqField(j.as === "string" ? j.prime : bigInt(j.prime), j.name));
    for (const j of jobs.filter(j => !j.concurrent)) await one(j);
    await Promise.all(jobs.filter(j => j.concurrent).map(one));
})().catch(e => { console.error(e); process.exit(1); });
