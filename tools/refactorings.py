"""Edits that keep the behaviour (loops rewritten, helpers extracted, other registers, another reading call):
usage: refactorings.py TREE 1|2|3     (TREE: a scratch copy of /repo); every check has to stay quiet on the result."""
import sys
R=sys.argv[1].rstrip("/")+"/"
def ed(f,*prs):
    s=open(R+f).read()
    for o,n in prs:
        assert s.count(o)>=1,(f,o)
        s=s.replace(o,n)
    open(R+f,'w').write(s)
if sys.argv[2]=='2':
  exec(open(__file__).read().split('#'+' SECOND')[1].split('#'+' END')[0])
  sys.exit()
if sys.argv[2]=='3':
  exec(open(__file__).read().split('#'+' THIRD')[1].split('#'+' FIN')[0])
  sys.exit()
ed('c/misc.hpp',
 ('''                task();
                task = nullptr;
            }
            finished.notify_one();''','''                std::function<void()> current;
                current.swap(task);
                task = [] {};
                current();
                task = nullptr;
                finished.notify_all();
            }'''),
 ('''        const int jobSize = elementCount / threadCount;
        const int elementRest = elementCount % threadCount;

        std::vector<int> jobs(threadCount, jobSize);

        for (int i = 0; i < elementRest; i++) {
            jobs[i] += 1;
        }

        return jobs;''','''        std::vector<int> jobs;
        jobs.reserve(threadCount);
        int left = elementCount;
        for (int t = threadCount; t > 0; t--) {
            const int share = (left + t - 1) / t;
            jobs.push_back(share);
            left -= share;
        }

        return jobs;'''),
 ('''        for (; k < nThreads - 1; k++) {
            workers[k].submit([=]{func(k, nThreads);});
        }

        func(k, nThreads);

        for (k = 0; k < nThreads - 1; k++) {
            workers[k].wait();
        }''','''        const int last = (int)workers.size();
        while (k < last) {
            const int id = k++;
            workers[id].submit([this, id, func]{func(id, nThreads);});
        }
        func(last, nThreads);
        waitAll(last);'''),
 ('''        for (k = 0; k < jobs.size() - 1; k++) {
            workers[k].wait();
        }''','''        waitAll(jobs.size() - 1);'''),
 ('''class ThreadPool {
    unsigned int nThreads;
    std::vector<ThreadWorker> workers;
''','''class ThreadPool {
    unsigned int nThreads;
    std::vector<ThreadWorker> workers;

    void waitAll(int n) {
        for (int i = n - 1; i >= 0; i--) workers[i].wait();
    }
'''),
 ('''            task = func;
        }
        occupied.notify_one();''','''            task = std::move(func);
            occupied.notify_all();
        }'''))
ed('c/misc.cpp',('''    value |= value >> 1;
    value |= value >> 2;
    value |= value >> 4;
    value |= value >> 8;
    value |= value >> 16;
    return tab32[(uint32_t)(value*0x07C4ACDD) >> 27];''','''    uint32_t r = 0;
    while (value >>= 1) r++;
    (void)tab32;
    return r;'''))
ed('c/fft.cpp',('''    x = (x >> 16) | (x << 16);
    x = ((x & 0xFF00FF00) >> 8) | ((x & 0x00FF00FF) << 8);
    x = ((x & 0xF0F0F0F0) >> 4) | ((x & 0x0F0F0F0F) << 4);
    x = ((x & 0xCCCCCCCC) >> 2) | ((x & 0x33333333) << 2);
    return (((x & 0xAAAAAAAA) >> 1) | ((x & 0x55555555) << 1)) >> (32-domainPow);''','''    u_int64_t r = 0;
    for (u_int64_t i = 0; i < domainPow; i++) r |= ((x >> i) & 1) << (domainPow - 1 - i);
    return r;'''),
 ('''            f.exp(roots[start], roots[1], (uint8_t *)(&start), sizeof(start));
        }
        for (uint64_t i=start+1; i<end; i++) {
            f.mul(roots[i], roots[i-1], roots[1]);
        }''','''            f.exp(roots[start], roots[1], (uint8_t *)(&start), sizeof(start));
            uint64_t i = start;
            while (++i < end) f.mul(roots[i], roots[1], roots[i-1]);
        }'''),
 ('''                Element t;
                Element u;
                u_int64_t k=(i/mdiv2)*m;
                u_int64_t j=i%mdiv2;

                f.mul(t, root(s, j), a[k+j+mdiv2]);
                f.copy(u,a[k+j]);
                f.add(a[k+j], t, u);
                f.sub(a[k+j+mdiv2], u, t);''','''                Element t;
                u_int64_t lo = ((i >> (s-1)) << s) + (i & (mdiv2 - 1));
                u_int64_t hi = lo + mdiv2;

                f.mul(t, a[hi], root(s, i & (mdiv2 - 1)));
                f.sub(a[hi], a[lo], t);
                f.add(a[lo], a[lo], t);'''),
 ('''    f.mul(a[0], a[0], powTwoInv[domainPow]);
    f.mul(a[n >> 1], a[n >> 1], powTwoInv[domainPow]);''','''    const u_int64_t fixedPoints[2] = {0, n >> 1};
    for (u_int64_t i : fixedPoints) f.mul(a[i], powTwoInv[domainPow], a[i]);'''))
ed('c/naf.cpp',('static uint64_t NAFTable[1024];','static uint64_t NAFTable[1 << 10];'),('''    static const bool tableBulded = buildNafTable();
    (void)tableBulded;
''','''    static std::once_flag once;
    std::call_once(once, [] { buildNafTable(); });
'''),('#include "naf.hpp"','#include <mutex>\n#include "naf.hpp"'))
ed('c/exp.hpp',('uint8_t *naf = new uint8_t[(scalarSize+2)*8];','std::vector<uint8_t> buffer((scalarSize+2)*8); uint8_t *naf = buffer.data();'),('    delete[] naf;\n',''),('#include <iostream>','#include <iostream>\n#include <vector>'))
ed('c/binfile_utils.cpp',('''        void *addrmm = mmap(NULL, sb.st_size, PROT_READ, MAP_PRIVATE | MAP_POPULATE, fd, 0);
        if (addrmm == MAP_FAILED)
        {
            int err = errno;
            close(fd);
            throw std::system_error(err, std::generic_category(), "mmap");
        }
        addr = malloc(sb.st_size);
        addrOwner.reset(addr);

        int nThreads = omp_get_max_threads() / 2;
        ThreadUtils::parcpy(addr, addrmm, sb.st_size, nThreads);
        //    memcpy(addr, addrmm, sb.st_size);

        munmap(addrmm, sb.st_size);
        close(fd);
''','''        addr = malloc(sb.st_size);
        addrOwner.reset(addr);
        for (uint64_t done = 0; done < size;) {
            ssize_t got = ::read(fd, (char *)addr + done, size - done);
            if (got < 0 && errno == EINTR) continue;
            if (got <= 0) {
                int err = errno;
                close(fd);
                throw std::system_error(err, std::generic_category(), "read");
            }
            done += got;
        }
        close(fd);
'''),('''            if (sections.find(sType) == sections.end())
            {
                sections.insert(std::make_pair(sType, std::vector<Section>()));
            }

            sections[sType].push_back(Section((void *)((u_int64_t)addr + pos), sSize));

            pos += sSize;''','''            sections[sType].emplace_back(Section(read(sSize), sSize));'''),
 ('''        u_int32_t res = *((u_int32_t *)((u_int64_t)addr + pos));
        pos += 4;
        return res;''','''        u_int32_t res;
        memcpy(&res, read(4), 4);
        return res;'''))
ed('c/splitparstr.cpp',('''        if ((s[i] == ',')&&(nPar==0)) {
            removePars(accS);
            res.push_back(accS);
            accS.clear();
            continue;
        }
        if (s[i] == '(') {
            nPar++;
        }
        if (s[i] == ')') {
            nPar--;
        }
        accS += s[i];''','''        switch (s[i]) {
        case ',':
            if (nPar==0) {
                removePars(accS);
                res.push_back(std::move(accS));
                accS = std::string();
                continue;
            }
            break;
        case '(': ++nPar; break;
        case ')': --nPar; break;
        }
        accS.push_back(s[i]);'''),('''        return splitParStr(res[0]);
    } else {
        return res;
    }''','''        return splitParStr(accS);
    }
    return res;'''))
ed('c/msm.cpp',('            typename Curve::Point t, tmp;\n\n            g.copy(t, buckets[nBuckets - 1]);\n            g.copy(tmp, t);\n\n            for (int i = nBuckets - 2; i >= 0 ; i--) {','            typename Curve::Point t, tmp;\n\n            g.copy(t, g.zero());\n            g.copy(tmp, g.zero());\n\n            for (int i = nBuckets - 1; i >= 0 ; i--) {'),
 ('''            for (int i = 0; i < nBuckets; i++) {
                g.copy(buckets[i], g.zero());
            }
''','''            typename Curve::Point none;
            g.copy(none, g.zero());
            std::fill(buckets, buckets + nBuckets, none);
'''),('#include <memory>','#include <memory>\n#include <algorithm>'))
ed('c/msm.hpp',('''        uint64_t bitStart = chunkIdx*bitsPerChunk;
        uint64_t byteStart = bitStart/8;
        uint64_t efectiveBitsPerChunk = bitsPerChunk;

        if (bitStart >= scalarSize*8) return 0;
        if (scalarSize < 8) byteStart = 0;
        else if (byteStart > scalarSize-8) byteStart = scalarSize - 8;
        if (bitStart + bitsPerChunk > scalarSize*8) efectiveBitsPerChunk = scalarSize*8 - bitStart;

        uint64_t shift = bitStart - byteStart*8;
        uint64_t v = 0;
        memcpy(&v, scalars + scalarIdx*scalarSize + byteStart, scalarSize < 8 ? scalarSize : 8);

        v = v >> shift;
        v = v & ( ((uint64_t)1 << efectiveBitsPerChunk) - 1);

        return uint64_t(v);''','''        const uint8_t *s = scalars + scalarIdx*scalarSize;
        uint64_t v = 0;
        for (uint64_t i = 0; i < bitsPerChunk; i++) {
            uint64_t bit = chunkIdx*bitsPerChunk + i;
            if (bit >= scalarSize*8) break;
            v |= (uint64_t)((s[bit/8] >> (bit%8)) & 1) << i;
        }
        return v;'''))
ed('c/multiexp.cpp',('''    PaddedPoint *sall = new PaddedPoint[nThreads];
    memset(sall, 0, sizeof(PaddedPoint)*nThreads);
''','''    std::vector<PaddedPoint> sall(nThreads);
    for (auto &x : sall) g.copy(x.p, g.zero());
'''),('    delete[] sall;\n',''),('''    if (n==1) {
        g.mulByScalar(r, bases[0], scalars, scalarSize);
        return;
    }
''',''),('#include <memory.h>','#include <memory.h>\n#include <vector>'))
ed('c/curve.cpp',('''    // U2 = X2*ZZ1
    typename BaseField::Element U2;
    F.mul(U2, p2.x, p1.zz);

    // S1 = Y1*ZZZ2
    typename BaseField::Element S1;
    F.mul(S1, p1.y, p2.zzz);
''','''    // S1 = Y1*ZZZ2
    typename BaseField::Element S1;
    F.mul(S1, p2.zzz, p1.y);

    // U2 = X2*ZZ1
    typename BaseField::Element U2;
    F.mul(U2, p1.zz, p2.x);
'''),('''        case a_is_one: F.copy(r, ab); break;
        case a_is_negone: F.neg(r, ab); break;
        case a_is_long: F.mul(r, fa, ab);''','''        default: F.mul(r, fa, ab);'''))
ed('c/zkey_utils.cpp',('std::unique_ptr<Header> h(new Header());','auto h = std::make_unique<Header>();'),('''    h->vk_alpha1 = f->read(h->n8q*2);
    h->vk_beta1 = f->read(h->n8q*2);
    h->vk_beta2 = f->read(h->n8q*4);
    h->vk_gamma2 = f->read(h->n8q*4);
    h->vk_delta1 = f->read(h->n8q*2);
    h->vk_delta2 = f->read(h->n8q*4);''','''    void **parts[] = {&h->vk_alpha1, &h->vk_beta1, &h->vk_beta2, &h->vk_gamma2, &h->vk_delta1, &h->vk_delta2};
    const int sizes[] = {2, 2, 4, 4, 2, 4};
    for (int i = 0; i < 6; i++) *parts[i] = f->read(h->n8q*sizes[i]);'''))
ed('src/armbuilder.js',('''        for (let reg = numParamRegs; reg <= this.m_maxAvailReg; reg++) {
            if (reg !== 18) {
                this.regPool.push(new Reg(reg));
            }
        }''','''        const avail = [];
        for (let reg = numParamRegs; reg <= this.m_maxAvailReg; reg++) avail.push(reg);
        this.regPool.push(...avail.filter(reg => reg !== 18).map(reg => new Reg(reg)));'''),
 ('''        this.op("cmp", this.accum, "xzr");
        this.op("cset", "x0", "eq");
        this.op("ret");
    }

    genFold() {
        const chunkCount = Math.trunc(this.width / 4);
        const lastWidth  = this.width % 4;

        let i = 0;
        for (; i < chunkCount; i += 1) {
            this.genChunk(4, i);
        }
''','''        this.op("tst", this.accum, this.accum);
        this.op("cset", "x0", "eq");
        this.op("ret");
    }

    genFold() {
        const chunkCount = Math.trunc(this.width / 4);
        const lastWidth  = this.width % 4;

        let i = 0;
        for (; i < chunkCount; i += 1) {
            this.genChunk(4, i);
        }
'''),('''this.op("csel", r[i], a[i], b[i], "hs");''','''this.op("csel", r[i], b[i], a[i], "lo");'''),
 ('''        this.a1 = cyclicCopy(this.assignRegs(8), this.width);

        this.generate();
    }

    generate() {
        for (let i = 0; i < this.width; i++) {
            this.genLoadVarWord(this.a1, i, 1);
            this.genStoreVarWord(this.a1, i, 0);''','''        this.a1 = cyclicCopy(this.assignRegs(4), this.width);

        this.generate();
    }

    generate() {
        for (let i = 0; i < this.width; i++) {
            this.genLoadVarWord(this.a1, i, 1);
            this.genStoreVarWord(this.a1, i, 0);'''))
ed('src/buildzqfield.js',('''    let asm = await renderFile(path.join(__dirname, "fr.asm.ejs"), builder);
    const cpp = await renderFile(path.join(__dirname, "fr.cpp.ejs"), builder);
    const hpp = await renderFile(path.join(__dirname, "fr.hpp.ejs"), builder);
    const element_hpp = await renderFile(path.join(__dirname, "fr_element.hpp.ejs"), builder);
    const generic_cpp = await renderFile(path.join(__dirname, "fr_generic.cpp.ejs"), builder);
    const raw_generic_cpp = await renderFile(path.join(__dirname, "fr_raw_generic.cpp.ejs"), builder);
    const raw_arm64_s = await renderFile(path.join(__dirname, "fr_raw_arm64.s.ejs"), builder);

    return {asm: asm, hpp: hpp, cpp: cpp, element_hpp: element_hpp, generic_cpp: generic_cpp, raw_generic_cpp: raw_generic_cpp, raw_arm64_s: raw_arm64_s};''','''    const res = {};
    for (const [key, file] of TEMPLATES) res[key] = await renderFile(path.join(__dirname, file), builder);
    return res;'''),('class ZqBuilder {','''const TEMPLATES = [["hpp", "fr.hpp.ejs"], ["element_hpp", "fr_element.hpp.ejs"], ["cpp", "fr.cpp.ejs"], ["asm", "fr.asm.ejs"],
    ["generic_cpp", "fr_generic.cpp.ejs"], ["raw_generic_cpp", "fr_raw_generic.cpp.ejs"], ["raw_arm64_s", "fr_raw_arm64.s.ejs"]];

class ZqBuilder {'''),('return label+"_"+self.lastTmp;','return `${label}__${self.lastTmp}`;'),
 ('''            let shex = v.shiftRight(i*64).and(mask).toString(16);
            while (shex.length <16) shex = "0" + shex;''','''            const shex = v.shiftRight(i*64).and(mask).toString(16).padStart(16, "0");'''))
ed('src/neg.asm.ejs',('''        xor rax, rax
<% for (let i=0; i<n64; i++) { %>
        cmp [rsi + <%=i*8%>], rax
        jnz doNegate
<% } %>
        ; it's zero so just set to zero''','''        mov rax, [rsi]
<% for (let i=1; i<n64; i++) { %>
        or rax, [rsi + <%=i*8%>]
<% } %>
        test rax, rax
        jnz doNegate
        ; it's zero so just set to zero'''),('mov rax, [q + <%=i*8%>]','mov rdx, [q + <%=i*8%>]'),('"sub" : "sbb" %> rax,','"sub" : "sbb" %> rdx,'),('mov [rdi + <%=i*8%>], rax\n<% } %>\n        ret\n','MARK'))
s=open(R+'src/neg.asm.ejs').read()
i=s.rindex('MARK'); s=s[:i]+'mov [rdi + <%=i*8%>], rdx\n<% } %>\n        ret\n'+s[i+4:]; s=s.replace('MARK','mov [rdi + <%=i*8%>], rax\n<% } %>\n        ret\n')
open(R+'src/neg.asm.ejs','w').write(s)
ed('src/add.asm.ejs',('''        push   rsi
        movsx  rsi, eax
        movsx  rdx, ecx
        add    rsi, rdx
        call   rawCopyS2L
        pop    rsi
''','''        movsx  rsi, eax
        movsx  rdx, ecx
        lea    rsi, [rsi + rdx]
        call   rawCopyS2L
'''))
ed('src/fr_raw_generic.cpp.ejs',('    if (mpn_cmp(pRawA, zero, <%=name%>_N64) != 0)','''    uint64_t any = 0;
    for (int i = 0; i < <%=name%>_N64; i++) any |= pRawA[i];
    if (any)'''))
ed('src/fr.cpp.ejs',('''char *<%=name%>_element2str(P<%=name%>Element pE) {
    <%=name%>Element tmp;
    mpz_t r;
    if (!(pE->type & <%=name%>_LONG)) {
        if (pE->shortVal>=0) {
            char *r = (char *)malloc(32);
            sprintf(r, "%d", pE->shortVal);
            return r;
        } else {
            mpz_init_set_si(r, pE->shortVal);
            mpz_add(r, r, q);
        }
    } else {
        <%=name%>_toNormal(&tmp, pE);
        mpz_init(r);
        mpz_import(r, <%=name%>_N64, -1, 8, -1, 0, (const void *)tmp.longVal);
    }
''','''char *<%=name%>_element2str(P<%=name%>Element pE) {
    mpz_t r;
    mpz_init(r);
    <%=name%>_toMpz(r, pE);
'''),('''    mpz_t mr;
    mpz_init(mr);
    mpz_set_ui(mr, v);
    for (int i=0; i<<%=name%>_N64; i++) r.v[i] = 0;
    mpz_export((void *)(r.v), NULL, -1, 8, -1, 0, mr);
    <%=name%>_rawToMontgomery(r.v,r.v);
    mpz_clear(mr);''','''    mpz_t mr;
    mpz_init_set_ui(mr, v);
    fromMpz(r, mr);
    mpz_clear(mr);'''),('''    <%=name%>Element tmp;
    <%=name%>_inv(&tmp, b);
    <%=name%>_mul(r, a, &tmp);''','''    <%=name%>Element reciprocal;
    <%=name%>_inv(&reciprocal, b);
    <%=name%>_mul(r, &reciprocal, a);'''))

sys.exit()
# SECOND
ed('src/asmbuilder.js',('this.availableRegs = ["rax", "r8", "r9", "r10", "r11"];','this.availableRegs = ["r11", "r10", "r9", "r8", "rax"];'),('this.pushableRegs = ["r12", "r13", "r14", "r15", "rbp", "rbx"];','this.pushableRegs = ["rbx", "r15", "r14", "r13", "r12", "rbp"];'),
 ('''        for (let i=0; i<this.wrAssignments.length; i++) {
            if (this.wrAssignments[i].ref == ref) return i;
        }
        return -1;''','''        return this.wrAssignments.findIndex(a => a.ref == ref);'''))
ed('src/montgomerybuilder.js',('''    c.op("mov", 2, "[ np ]");''','''    c.op("mov", 2, `0x${np64.toString(16)}`);'''))
ed('c/f2field.cpp',('''    typename BaseField::Element bbr;
    mulByNr(bbr, bb);

    typename BaseField::Element sum1, sum2;
    F.add(sum1, e1.a, e1.b);
    F.add(sum2, e2.a, e2.b);

    F.add(r.a, aa, bbr);

    F.mul(r.b, sum1, sum2 );
    F.sub(r.b, r.b, aa);
    F.sub(r.b, r.b, bb);''','''    typename BaseField::Element ab, ba;
    F.mul(ab, e1.a, e2.b);
    F.mul(ba, e1.b, e2.a);
    mulByNr(bb, bb);
    F.add(r.a, bb, aa);
    F.add(r.b, ba, ab);'''),('''    std::ostringstream stringStream;
    stringStream << "(" << F.toString(e.a, radix) << "," << F.toString(e.b, radix) << ")";
    return stringStream.str();''','''    return "(" + F.toString(e.a, radix) + "," + F.toString(e.b, radix) + ")";'''))
ed('src/fr_generic.cpp.ejs',('''    int64_t sign = val >> 31;

    if (sign)
    {
        sign = ~sign;
    }

    return sign ? 1 : 0;''','''    return val != (int64_t)(int32_t)val;'''),('''    if (overflow)
    {
        <%=name%>_rawCopyS2L(r->longVal, result);
        r->type = <%=name%>_LONG;
        r->shortVal = 0;
    }
    else
    {
        // done the same way as in intel asm implementation
        r->shortVal = (int32_t)result;
        r->type = <%=name%>_SHORT;
        //

        <%=name%>_rawCopyS2L(r->longVal, result);
        r->type = <%=name%>_LONG;
        r->shortVal = 0;
    }''','''    (void)overflow;
    <%=name%>_rawCopyS2L(r->longVal, result);
    r->type = <%=name%>_LONG;
    r->shortVal = 0;'''))
ed('src/cmpops.asm.ejs',('''        mov    r8, [rsi]
        mov    r9, [rdx]
        bt     r8, 63          ; Check if is short first operand
        jc     rgt_l1
''','''        mov    r9, [rdx]
        mov    r8, [rsi]
        test   r8, r8
        js     rgt_l1
'''),('''rgt_ret1:
        mov    rax, 1''','''rgt_ret1:
        xor    eax, eax
        inc    eax'''))
ed('src/copy.asm.ejs',('''<%=name%>_copy:
<% for (let i=0; i<=n64; i++) { %>
        mov     rax, [rsi + <%= i*8 %>]
        mov     [rdi + <%= i*8 %>], rax
<% } %>''','''<%=name%>_copy:
<% for (let i=n64; i>=0; i--) { %>
        mov     rcx, [rsi + <%= i*8 %>]
        mov     [rdi + <%= i*8 %>], rcx
<% } %>'''))

# END
# THIRD
ed('c/curve.cpp',('    if (F.isZero(P) && F.isZero(R)) return dbl(p3, p1);','    if (F.isZero(P)) {\n        if (F.isZero(R)) return dbl(p3, p1);\n        copy(p3, fzero);\n        return;\n    }'),
 ("""    // ZZ3 = PP
    F.copy(p3.zz, PP);
    
    // ZZZ3 = PPP
    F.copy(p3.zzz, PPP);
""","""    // ZZ3 = PP, ZZZ3 = PPP, scaled
    typename BaseField::Element two, k2, k3;
    F.add(two, F.one(), F.one());
    F.square(k2, two);
    F.mul(k3, k2, two);
    F.mul(p3.zz, PP, k2);
    F.mul(p3.zzz, PPP, k3);
    F.mul(p3.x, p3.x, k2);
    F.mul(p3.y, p3.y, k3);
"""),
 ("""    typename BaseField::Element tmp;

    // U = 2*Y1
    typename BaseField::Element U;
    F.add(U, p1.y, p1.y);

    // V = U^2   ; Already store in ZZ3
    F.square(p3.zz, U);
""","""    Point pp;
    copy(pp, p1);
    if (!F.isZero(pp.zz)) {
        dbl(p3, pp);
        return;
    }
    typename BaseField::Element tmp;

    // U = 2*Y1
    typename BaseField::Element U;
    F.add(U, p1.y, p1.y);

    // V = U^2   ; Already store in ZZ3
    F.square(p3.zz, U);
"""),
 ("""    F.copy(r.x, a.x);
    F.neg(r.y, a.y);
    F.copy(r.zz, F.one());
    F.copy(r.zzz, F.one());
""","""    copy(r, a);
    F.neg(r.y, r.y);
"""),
 ("""    F.copy(fzero.x, F.one());""","""    F.copy(fzero.x, F.negOne());"""))
ed('c/multiexp.hpp',('#define PME2_MAX_CHUNK_SIZE_BITS 16','#define PME2_MAX_CHUNK_SIZE_BITS 13'),('#define PME2_MIN_CHUNK_SIZE_BITS 2','#define PME2_MIN_CHUNK_SIZE_BITS 3'))
ed('c/multiexp.cpp',('        g.copy(accs[i].p, g.zero());\n    }\n}\n\ntemplate <typename Curve>\nuint64_t','        memset((void *)&accs[i], 0, sizeof(PaddedPoint));\n    }\n}\n\ntemplate <typename Curve>\nuint64_t'),
 ('    v = v & ( (1 << efectiveBitsPerChunk) - 1);','    v &= (((uint64_t)1) << efectiveBitsPerChunk) - 1;'))
ed('c/msm.hpp',('MIN_CHUNK_SIZE_BITS = 3;','MIN_CHUNK_SIZE_BITS = 5;'),('MAX_CHUNK_SIZE_BITS = 16;','MAX_CHUNK_SIZE_BITS = 11;'))
ed('c/msm.cpp',('                if (bucketIndex > 0) {\n','                if (bucketIndex != 0 && g.isZero(_bases[i])) continue;\n                if (bucketIndex > 0) {\n'),
 ('                g.copy(buckets[i], g.zero());','                memset((void *)&buckets[i], 0, sizeof(typename Curve::Point));'))
ed('c/f6field.cpp',("""    F.add(t0, a.x, a.y);
    F.add(t1, b.x, b.y);
    F.mul(tz, t0, t1);

    F.sub(tz, tz, v1);
    F.sub(tz, tz, v2);
    F.mulXi(tz, tz);""","""    F.mul(t0, a.x, b.y);
    F.mul(t1, a.y, b.x);
    F.add(tz, t0, t1);
    F.mulXi(tz, tz);"""),
 ("""    F.square(v0, a.z);
    F.square(v1, a.y);
    F.square(v2, a.x);

    F.add(c0, a.x, a.y);""","""    if (&r == &a) {
        Element other;
        copy(other, a);
        mul(r, a, other);
        return;
    }
    F.mul(v0, a.z, a.z);
    F.square(v1, a.y);
    F.square(v2, a.x);

    F.add(c0, a.x, a.y);"""))
ed('c/f12field.cpp',("""    typename BaseField::Element v0, t, ty;

    F.mul(v0, a.x, a.y);""","""    typename BaseField::Element v0, t, ty;
    if (F.isZero(a.x)) {
        F.square(ty, a.y);
        copy(r, a);
        F.copy(r.y, ty);
        return;
    }

    F.mul(v0, a.x, a.y);"""))
ed('src/fr_generic.cpp.ejs',("""        // done the same way as in intel asm implementation
        r->shortVal = (int32_t)result;
        r->type = <%=name%>_SHORT;
        //

        <%=name%>_rawCopyS2L(r->longVal, result);
        r->type = <%=name%>_LONG;
        r->shortVal = 0;
""","""        r->shortVal = (int32_t)result;
        r->type = <%=name%>_SHORT;
"""),
 ("""        r->type = <%=name%>_SHORT;
        r->shortVal = (int32_t)sum;
""","""        <%=name%>_rawCopyS2L(r->longVal, sum);
        <%=name%>_rawToMontgomery(r->longVal, r->longVal);
        r->type = <%=name%>_LONGMONTGOMERY;
        r->shortVal = 0;
"""),
 ("""    r->type = <%=name%>_LONGMONTGOMERY;

    <%=name%>_rawMMul(r->longVal, a->longVal, b->longVal);
    <%=name%>_rawMMul(r->longVal, r->longVal, <%=name%>_R3.longVal);
""","""    r->type = <%=name%>_LONG;

    <%=name%>_rawMMul(r->longVal, a->longVal, b->longVal);
    <%=name%>_rawMMul(r->longVal, r->longVal, <%=name%>_R2.longVal);
"""))
ed('src/fr.cpp.ejs',("""    if (mpz_fits_sint_p(v)) {
        pE->type = <%=name%>_SHORT;
        pE->shortVal = mpz_get_si(v);
    } else {""","""    if (mpz_sgn(v) < 0) {
        pE->type = <%=name%>_SHORT;
        pE->shortVal = mpz_get_si(v);
    } else {"""),
 ("""    <%=name%>_toMpz(ma, a);
    mpz_invert(mr, ma, q);
    <%=name%>_fromMpz(r, mr);
""","""    <%=name%>_toMpz(ma, a);
    mpz_t e;
    mpz_init(e);
    mpz_sub_ui(e, q, 2);
    mpz_powm(mr, ma, e, q);
    mpz_clear(e);
    <%=name%>_fromMpz(r, mr);
"""),
 ("""    mpz_t r;
    mpz_init(r);

    toMpz(r, element);

    for (int i=0; i<<%=name%>_N64 * 8; i++) data[i] = 0;
    mpz_export(data, NULL, 1, <%=name%>_N64 * 8, 1, 0, r);
    mpz_clear(r);
""","""    Element n;
    <%=name%>_rawFromMontgomery(n.v, element.v);
    for (int i=0; i<<%=name%>_N64 * 8; i++) {
        data[<%=name%>_N64 * 8 - 1 - i] = (uint8_t)(n.v[i / 8] >> (8 * (i % 8)));
    }
"""),
 ("""    bool oneFound = false;
    Element copyBase;
    copy(copyBase, base);
    for (int i=scalarSize*8-1; i>=0; i--) {
        if (!oneFound) {
            if ( !BIT_IS_SET(scalar, i) ) continue;
            copy(r, copyBase);
            oneFound = true;
            continue;
        }
        square(r, r);
        if ( BIT_IS_SET(scalar, i) ) {
            mul(r, r, copyBase);
        }
    }
    if (!oneFound) {
        copy(r, fOne);
    }
""","""    Element power, acc;
    copy(power, base);
    copy(acc, fOne);
    for (unsigned int i=0; i<scalarSize*8; i++) {
        if ( BIT_IS_SET(scalar, i) ) mul(acc, acc, power);
        square(power, power);
    }
    copy(r, acc);
"""))
ed('src/fr.hpp.ejs',("    Element inline add(int a, const Element &b)","    void inline add(Element &r, const Element &a, int b) { r = add(a, set(b)); }\n    void inline sub(Element &r, const Element &a, int b) { r = sub(a, set(b)); }\n    bool inline isOne(const Element &a) { return eq(a, fOne); }\n    Element inline add(int a, const Element &b)"),
 ("    int inline isZero(const Element &a) { return <%=name%>_rawIsZero(a.v); }","    bool isZero(const Element &a) { return eq(a, fZero) != 0; }"))
ed('c/binfile_utils.cpp',("""        for (u_int32_t i = 0; i < nSections; i++)
        {
            u_int32_t sType = readU32LE();
            u_int64_t sSize = readU64LE();
            checkAvailable(sSize);

            if (sections.find(sType) == sections.end())
            {
                sections.insert(std::make_pair(sType, std::vector<Section>()));
            }

            sections[sType].push_back(Section((void *)((u_int64_t)addr + pos), sSize));

            pos += sSize;
        }

        pos = 0;
        readingSection = NULL;""","""        while (nSections-- > 0)
        {
            const u_int32_t sType = readU32LE();
            const u_int64_t sSize = readU64LE();
            void *start = read(sSize);
            sections[sType].emplace_back(start, sSize);
        }

        pos = 0;
        readingSection = NULL;"""),
 ("""        u_int32_t res = *((u_int32_t *)((u_int64_t)addr + pos));
        pos += 4;
        return res;""","""        const uint8_t *p = (const uint8_t *)addr + pos;
        pos += 4;
        return p[0] | p[1] << 8 | p[2] << 16 | (u_int32_t)p[3] << 24;"""),
 ("""        u_int64_t res = *((u_int64_t *)((u_int64_t)addr + pos));
        pos += 8;
        return res;""","""        u_int64_t low = readU32LE();
        return low | (u_int64_t)readU32LE() << 32;"""))
ed('c/zkey_utils.cpp',("""    h->n8q = f->readU32LE();
""","""    const uint8_t *first = (const uint8_t *)f->read(4);
    h->n8q = first[0] | first[1] << 8 | first[2] << 16 | (uint32_t)first[3] << 24;
"""))
ed('c/wtns_utils.cpp',("h(new Header());","h = std::make_unique<Header>();"))
ed('src/buildzqfield.js',("const bigInt","const path2 = require(\"path\");\nconst bigInt"))
# FIN
