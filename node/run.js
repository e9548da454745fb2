"use strict";
// Compiles generated modules with the TypeScript compiler, extracts what they
// declare and runs their encoders and decoders against a logging runtime.
// Reads a job file, writes one result line per schema. It judges nothing.
//
// usage: run.js JOBS.ndjson OUT.ndjson
//   job: { id, ts, ast, want: ["decls", "scope", "diags"], runs: [...] }
//   run: { kind: "roundtrip", leaves, buf, nil }
//      | { kind: "read", hex, clamp, budget }
//      | { kind: "cuts", leaves, cuts, all }      encode, then decode prefixes
//      | { kind: "poke", leaves, pokes: [[pos, byte], ...] }
//      | { kind: "session", ops }                 packets and buffers used side by side
//      | { kind: "sweep", width, before, after }  decode packets which differ in one number
const fs = require("fs");
const path = require("path");
const vm = require("vm");
const ts = require("/opt/veriftools/node/node_modules/typescript");
const { make, Runaway } = require("./runtime.js");

const BUILTINS = new Set(["uint8", "uint16", "uint32", "int8", "int16", "int32", "float", "string"]);
const OPTIONS = {
    strict: true, target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.ES2020,
    moduleResolution: ts.ModuleResolutionKind.Node10, lib: ["lib.es2020.d.ts"], types: [],
    noImplicitReturns: true, noFallthroughCasesInSwitch: false, skipLibCheck: true,
    ignoreDeprecations: "5.0",
};

function program(jobs) {
    const files = new Map();
    jobs.forEach((j, i) => files.set("/gen/m" + i + ".ts", j.ts));
    files.set("/gen/node_modules/packet/index.d.ts", fs.readFileSync(path.join(__dirname, "packet.d.ts"), "utf8"));
    const host = ts.createCompilerHost(OPTIONS);
    const read = host.readFile.bind(host), exists = host.fileExists.bind(host), get = host.getSourceFile.bind(host);
    host.fileExists = (f) => files.has(f) || (!f.startsWith("/gen/") && exists(f));
    host.readFile = (f) => files.has(f) ? files.get(f) : f.startsWith("/gen/") ? undefined : read(f);
    host.directoryExists = (d) => d === "/gen" || d.startsWith("/gen/node_modules") || ts.sys.directoryExists(d);
    host.getCurrentDirectory = () => "/gen";
    host.getSourceFile = (f, o, ...r) => files.has(f) ? ts.createSourceFile(f, files.get(f), o, true) : get(f, o, ...r);
    host.writeFile = () => { throw new Error("nothing is written"); };
    const names = jobs.map((_, i) => "/gen/m" + i + ".ts");
    return ts.createProgram(names, OPTIONS, host);
}

// ---------------------------------------------------------------- extraction

function fieldType(checker, node) {
    // -> { base, arr, opt }, resolving names to the declaration they mean
    const r = { base: "?", arr: false, opt: false };
    const walk = (n) => {
        if (!n) { r.base = "?none"; return; }
        if (ts.isUnionTypeNode(n)) {
            const rest = n.types.filter((x) => x.kind !== ts.SyntaxKind.UndefinedKeyword);
            if (rest.length !== n.types.length) r.opt = true;
            if (rest.length === 1) return walk(rest[0]);
            r.base = "?union";
        } else if (ts.isParenthesizedTypeNode(n)) walk(n.type);
        else if (ts.isArrayTypeNode(n)) {
            if (r.arr) { r.base = "?nested array"; return; }
            r.arr = true; walk(n.elementType);
        } else if (ts.isTypeReferenceNode(n)) {
            const sym = checker.getSymbolAtLocation(n.typeName);
            if (sym && sym.name === "Array" && n.typeArguments && n.typeArguments.length === 1 && !r.arr) { r.arr = true; return walk(n.typeArguments[0]); }
            const outer = sym && sym.declarations && sym.declarations[0].parent && sym.declarations[0].parent.parent;
            r.base = !sym || !sym.declarations ? "?unresolved"
                : outer && ts.isModuleDeclaration(outer) ? outer.name.text + "." + sym.name : sym.name;
        } else if (n.kind === ts.SyntaxKind.NumberKeyword) r.base = "number";
        else if (n.kind === ts.SyntaxKind.StringKeyword) r.base = "string";
        else r.base = "?" + ts.SyntaxKind[n.kind];
    };
    walk(node);
    return r;
}

function decls(checker, sf) {
    const out = { ns: [], cls: [], ifaces: [], enums: [], ctor: [] };
    const member = (m, type) => {
        const t = fieldType(checker, type);
        return { name: m.name.getText(sf), base: t.base, arr: t.arr, opt: t.opt || !!m.questionToken };
    };
    const type = (st, ns) => {
        if (ts.isInterfaceDeclaration(st)) {
            out.ifaces.push({ ns, name: st.name.text, members: st.members.map((m) => ts.isPropertySignature(m)
                ? member(m, m.type) : { name: "?", base: "?" + ts.SyntaxKind[m.kind], arr: false, opt: false }) });
        } else if (ts.isEnumDeclaration(st)) {
            out.enums.push({ ns, name: st.name.text, members: st.members.map((m) => ({ name: m.name.getText(sf), value: String(checker.getConstantValue(m)) })) });
        } else if (ts.isTypeAliasDeclaration(st)) {
            out.ifaces.push({ ns, name: st.name.text, members: [{ name: "?", base: "?alias", arr: false, opt: false }] });
        }
    };
    const exported = (st) => (ts.getCombinedModifierFlags(st) & ts.ModifierFlags.Export) !== 0;
    for (const st of sf.statements) {
        if (ts.isModuleDeclaration(st)) {
            out.ns.push(st.name.text);
            if (st.body && ts.isModuleBlock(st.body)) st.body.statements.forEach((x) => type(x, st.name.text));
        } else if (ts.isClassDeclaration(st)) {
            if (!exported(st)) continue;
            out.cls.push(st.name ? st.name.text : "");
            for (const m of st.members) if (ts.isConstructorDeclaration(m)) m.parameters.forEach((p) => out.ctor.push(member(p, p.type)));
        } else if (exported(st)) type(st, "");
    }
    return out;
}

// Declarations and uses of variables inside the methods, block by block.
function scope(sf) {
    const fns = [], top = [];
    const bound = (n, put) => {
        if (ts.isIdentifier(n)) put(n.text);
        else n.elements.forEach((x) => { if (!ts.isOmittedExpression(x)) bound(x.name, put); });
    };
    const body = (fn, ev) => {
        const declare = (x) => ev.push({ e: "let", x });
        const block = (n) => { ev.push({ e: "open", x: "" }); ts.forEachChild(n, walk); ev.push({ e: "close", x: "" }); };
        const walk = (n) => {
            if (ts.isBlock(n) || ts.isCaseBlock(n) || ts.isForStatement(n) || ts.isForOfStatement(n) || ts.isForInStatement(n) || ts.isCatchClause(n)) block(n);
            else if (ts.isArrowFunction(n) || ts.isFunctionExpression(n)) body(n, ev);
            else if (ts.isFunctionDeclaration(n)) { if (n.name) declare(n.name.text); body(n, ev); }
            else if (ts.isVariableDeclaration(n)) {
                if (n.initializer) walk(n.initializer);
                bound(n.name, declare);
            } else if (ts.isPropertyAccessExpression(n)) walk(n.expression);
            else if (ts.isPropertyAssignment(n)) walk(n.initializer);
            else if (ts.isLabeledStatement(n)) walk(n.statement);
            else if (ts.isBreakOrContinueStatement(n) || ts.isTypeNode(n)) return;
            else if (ts.isIdentifier(n)) ev.push({ e: "use", x: n.text });
            else ts.forEachChild(n, walk);
        };
        ev.push({ e: "open", x: "" });
        for (const p of fn.parameters) bound(p.name, declare);
        if (fn.body && ts.isBlock(fn.body)) fn.body.statements.forEach(walk);
        else if (fn.body) walk(fn.body);
        ev.push({ e: "close", x: "" });
        return ev;
    };
    for (const st of sf.statements) {
        if (ts.isImportDeclaration(st) && st.importClause) {
            const c = st.importClause;
            if (c.name) top.push(c.name.text);
            if (c.namedBindings && ts.isNamedImports(c.namedBindings)) c.namedBindings.elements.forEach((x) => top.push(x.name.text));
            if (c.namedBindings && ts.isNamespaceImport(c.namedBindings)) top.push(c.namedBindings.name.text);
        } else if (ts.isClassDeclaration(st)) {
            if (st.name) top.push(st.name.text);
            for (const m of st.members) if (ts.isMethodDeclaration(m)) fns.push({ name: m.name.getText(sf), events: body(m, []) });
        } else if (ts.isFunctionDeclaration(st)) {
            if (st.name) top.push(st.name.text);
            fns.push({ name: st.name ? st.name.text : "?", events: body(st, []) });
        } else if (ts.isVariableStatement(st)) st.declarationList.declarations.forEach((x) => bound(x.name, (y) => top.push(y)));
    }
    return { top, fns };
}

// ---------------------------------------------------------------- values

function envOf(ast) {
    const env = new Map();
    let root = "";
    for (const d of ast) {
        if (d.n === "export") root = d.name;
        else env.set(d.name, d);
    }
    return { env, root };
}

function builder(env, consts, leaves, nil) {
    let i = 0;
    const field = (f) => {
        if (f.arr) { const n = leaves[i++].n; const a = []; for (let k = 0; k < n; ++k) a.push(one(f.ty)); return a; }
        if (f.opt) { const n = leaves[i++].n; return n ? one(f.ty) : nil === "null" ? null : undefined; }
        return one(f.ty);
    };
    const one = (ty) => {
        if (ty === "string") return leaves[i++].s;
        if (BUILTINS.has(ty)) return Number(leaves[i++].s);
        const d = env.get(ty);
        if (d.n === "enum") { const s = leaves[i++].s; return Number((consts.get(ty) || new Map()).get(s)); }
        const o = {};
        for (const f of d.fields) {
            const v = field(f);
            // names which every object inherits cannot be left out (a known finding; "bare" leaves them out)
            if (v === undefined && (nil === "bare" || nil === "omit" && !(f.name in Object.prototype))) continue;
            o[f.name] = v;
        }
        return o;
    };
    return { field };
}

function num(v) { return Object.is(v, -0) ? "-0" : String(v); }

function project(env, consts, root, obj) {
    const out = [];
    const put = (s, n) => out.push({ s, n });
    const bad = (what) => put("!" + what, 0);
    const one = (ty, v) => {
        if (ty === "string") return typeof v === "string" ? put(v, v.length) : bad(typeof v);
        if (BUILTINS.has(ty)) return typeof v === "number" ? put(num(v), 0) : bad(typeof v);
        const d = env.get(ty);
        if (d.n === "enum") {
            if (typeof v !== "number") return bad(typeof v);
            for (const [name, value] of consts.get(ty) || []) if (Number(value) === v) return put(name, 0);
            return bad("enum " + v);
        }
        if (typeof v !== "object" || v === null || Array.isArray(v)) return bad(v === null ? "null" : typeof v);
        struct(d, v);
    };
    const struct = (d, v) => {
        for (const f of d.fields) {
            const x = Object.prototype.hasOwnProperty.call(v, f.name) ? v[f.name] : undefined;
            if (f.arr) {
                if (!Array.isArray(x)) { bad(typeof x); continue; }
                put("#", x.length);
                for (let k = 0; k < x.length; ++k) one(f.ty, x[k]);
            } else if (f.opt) {
                if (x === undefined || x === null) put("?", 0);
                else { put("?", 1); one(f.ty, x); }
            } else one(f.ty, x);
        }
        const known = new Set(d.fields.map((f) => f.name));
        for (const key of Object.keys(v)) if (!known.has(key)) bad("extra " + key);
    };
    if (typeof obj !== "object" || obj === null) bad(typeof obj);
    else struct(env.get(root), obj);
    return out;
}

// ---------------------------------------------------------------- running

// Loads a module linked with a logging runtime; state is what the runtime logs to.
async function load(js) {
    const state = { log: [], used: 0, budget: Infinity };
    const runtime = make(state);
    try {
        const packet = new vm.SyntheticModule(Object.keys(runtime), function () {
            for (const k of Object.keys(runtime)) this.setExport(k, runtime[k]);
        });
        const mod = new vm.SourceTextModule(js);
        await mod.link((name) => {
            if (name === "packet") return packet;
            throw new Error("module " + name);
        });
        await mod.evaluate();
        return { state, exports: mod.namespace };
    } catch (e) {
        return { state, error: "on loading: " + errName(e) };
    }
}

// Generated code may loop without ever calling the runtime. A call which takes
// this long is given up; after a few of them the other runs are left out.
const TOO_LONG = 4000, ENOUGH = 3;
let stopped = 0;
const script = new vm.Script("__guarded()");
function guarded(f, timeout = TOO_LONG) {
    globalThis.__guarded = f;
    try {
        return script.runInThisContext({ timeout });
    } catch (e) {
        if (!e || e.code !== "ERR_SCRIPT_EXECUTION_TIMEOUT") throw e;
        ++stopped;
        throw new Error("does not end");
    }
}

const errName = (e) => e instanceof Runaway ? "Runaway" : (e && e.name ? e.name + ": " + e.message : String(e)).replace(/[^ -~]/g, "?").replace(/["\\]/g, "'").slice(0, 200);

function runOne(job, mod, consts, run) {
    const { env, root } = envOf(job.ast);
    const state = mod.state;
    Object.assign(state, { log: [], used: 0, budget: run.budget || 20000, clamp: run.clamp || 0, silent: false, watch: run.kind === "roundtrip", given: undefined, finished: undefined });
    const traces = [];
    const Class = mod.error ? undefined : mod.exports[root];
    if (!Class && run.kind === "session") return [{ events: [{ op: "load", threw: mod.error || "no exported class", pk: [], bf: [] }] }];
    if (!Class) return [{ events: [{ e: "wbegin", leaves: run.leaves || [] }, { e: "wend", threw: mod.error || "no exported class" }] }];
    const encode = (leaves) => {
        state.log.push({ e: "wbegin", leaves, buf: !!run.buf });
        try {
            const b = builder(env, consts, leaves, run.nil);
            const args = env.get(root).fields.map((f) => b.field(f));
            const obj = new Class(...args);
            state.given = run.buf ? new ArrayBuffer(8) : undefined;
            const buf = guarded(() => run.buf ? obj.write(state.given) : obj.write());
            const ok = buf instanceof ArrayBuffer && buf === state.finished;
            state.log.push({ e: "wend", threw: ok ? "" : "no finished packet returned" });
            return ok ? buf : null;
        } catch (e) {
            if (e instanceof Runaway) state.log.length = Math.min(state.log.length, 300);
            state.log.push({ e: "wend", threw: errName(e) });
            return null;
        }
    };
    const decode = (buf) => {
        state.log.push({ e: "rbegin" });
        state.reader = undefined;
        state.given = buf;
        state.used = 0;
        const ev = { e: "rend", threw: "", null: false, leaves: [], left: 0 };
        try {
            const obj = guarded(() => Class.read(buf));
            if (obj === null) ev.null = true;
            else ev.leaves = project(env, consts, root, obj);
            ev.left = state.reader ? state.reader.bytes.byteLength - state.reader.at : -1;
        } catch (e) {
            ev.threw = errName(e);
            // an endless loop: its beginning will do
            if (e instanceof Runaway) state.log.length = Math.min(state.log.length, 300);
        }
        state.log.push(ev);
    };
    const flush = (extra) => { traces.push(Object.assign({ events: state.log }, extra)); state.log = []; };
    const bytes = (hex) => new Uint8Array((hex.match(/../g) || []).map((h) => parseInt(h, 16))).buffer;
    const hexOf = (buf) => Buffer.from(buf).toString("hex");
    if (run.kind === "roundtrip") {
        const b = encode(run.leaves);
        if (b) decode(b.slice(0));
        flush({ bytes: b ? b.byteLength : -1 });
    } else if (run.kind === "read") {
        const b = bytes(run.hex);
        decode(b);
        flush({ hex: hexOf(b) });
    } else if (run.kind === "cuts" || run.kind === "poke") {
        const b = encode(run.leaves);
        state.log = [];
        if (b) {
            const list = run.kind === "poke" ? run.pokes
                : b.byteLength <= run.all ? Array.from({ length: b.byteLength }, (_, i) => (i + 0.5) / b.byteLength) : run.cuts;
            const set = new Set();
            for (const c of list) {
                let x;
                if (run.kind === "cuts") {
                    if (b.byteLength === 0) continue;
                    const n = Math.floor(c * b.byteLength);
                    if (set.has(n)) continue;
                    set.add(n);
                    x = b.slice(0, n);
                } else {
                    if (b.byteLength === 0) continue;
                    x = b.slice(0);
                    for (const [pos, byte] of c) new Uint8Array(x)[Math.floor(pos * b.byteLength)] = byte;
                }
                decode(x);
                flush({ hex: hexOf(x) });
            }
        }
    }
    else if (run.kind === "sweep") {
        const size = { uint8: 1, uint16: 2, uint32: 4 }[run.width];
        const b = bytes(run.before + "00".repeat(size) + run.after);
        const view = new DataView(b), at = run.before.length / 2;
        const ev = { e: "sweep", enum: run.enum, width: run.width, pre: run.pre, post: run.post, threw: "", accepted: [] };
        const values = run.values || Array.from({ length: 2 ** (8 * size) }, (_, i) => i);
        state.silent = true;
        try {
            guarded(() => { for (const v of values) {
                if (size === 1) view.setUint8(at, v); else if (size === 2) view.setUint16(at, v, true); else view.setUint32(at, v, true);
                state.used = 0;
                const obj = Class.read(b);
                if (obj !== null && ev.accepted.length < 200) ev.accepted.push({ v: String(v), leaves: project(env, consts, root, obj) });
            } }, 50 * TOO_LONG);
        } catch (e) { ev.threw = errName(e); }
        state.log.push(ev);
        flush({ tried: values.length });
    }
    else if (run.kind === "session") session(job, mod, consts, run, Class, env, root, traces, bytes, hexOf);
    return traces;
}

// Makes one object like another, keeping the objects and arrays it consists of.
function become(x, y) {
    const inner = (v) => typeof v === "object" && v !== null;
    const put = (k) => { if (inner(x[k]) && inner(y[k]) && Array.isArray(x[k]) === Array.isArray(y[k])) become(x[k], y[k]); else x[k] = y[k]; };
    if (Array.isArray(x)) {
        for (let k = 0; k < y.length; ++k) put(k);
        x.length = y.length;
    } else {
        for (const k of Object.keys(y)) put(k);
        for (const k of Object.keys(x)) if (!Object.hasOwn(y, k)) delete x[k];
    }
}

// All own properties of an object, so that null, undefined and missing differ.
function exact(v) {
    if (typeof v === "string") return JSON.stringify(v);
    if (typeof v !== "object" || v === null) return Object.is(v, -0) ? "-0" : String(v);
    const keys = Object.keys(v);
    if (Array.isArray(v)) return "[" + v.length + ":" + keys.map((k) => (k === String(Number(k)) ? "" : k + "=") + exact(v[k])).join(",") + "]";
    return "{" + keys.map((k) => k + ":" + exact(v[k])).join(",") + "}";
}

// A program which holds several packets and buffers; what it sees of them is
// recorded after every operation. Values are recorded as one text each.
function session(job, mod, consts, run, Class, env, root, traces, bytes, hexOf) {
    const state = mod.state;
    state.silent = true;
    const pk = new Map(), bf = new Map(), events = [];
    const text = (leaves) => leaves.map((l) => l.s + (l.s === "#" || l.s === "?" ? l.n : "")).join("\u00b7");
    const fields = (leaves) => {
        const b = builder(env, consts, leaves, run.nil);
        return env.get(root).fields.map((f) => b.field(f));
    };
    for (const op of run.ops) {
        const ev = { op: op.op, p: op.p || 0, b: op.b || 0, v: "", threw: "", refused: false };
        state.used = 0;
        state.clamp = 0;
        if ((op.op === "write" || op.op === "set") && !pk.has(op.p) || (op.op === "read" || op.op === "damage") && !bf.has(op.b)) continue;
        try {
            if (op.op === "new") {
                ev.v = text(op.leaves);
                pk.set(op.p, new Class(...fields(op.leaves)));
            } else if (op.op === "set") {
                ev.v = text(op.leaves);
                become(pk.get(op.p), Object.fromEntries(fields(op.leaves).map((v, k) => [env.get(root).fields[k].name, v])));
            } else if (op.op === "write") {
                const b = guarded(() => Class.prototype.write.call(pk.get(op.p), ...(op.buf ? [new ArrayBuffer(8)] : [])));
                if (!(b instanceof ArrayBuffer)) throw new Error("no buffer returned");
                bf.set(op.b, b);
            } else if (op.op === "read") {
                const obj = guarded(() => Class.read(bf.get(op.b)));
                ev.refused = obj === null;
                if (obj === null) pk.delete(op.p); else pk.set(op.p, obj);
            } else if (op.op === "damage") {
                const b = bf.get(op.b), x = b.slice(0);
                if (x.byteLength === 0) continue;
                for (const [pos, byte] of op.pokes) new Uint8Array(x)[Math.floor(pos * x.byteLength)] = byte;
                // counts are made small, as in runs of kind "poke"
                state.clamp = 6;
                state.budget = 3000;
                try { guarded(() => Class.read(x)); } catch (e) { continue; } finally { state.clamp = 0; state.budget = run.budget || 20000; }
                ev.v = hexOf(x);
                new Uint8Array(b).set(new Uint8Array(x));
            } else if (op.op === "trip") {
                guarded(() => Class.prototype.write.call(Object.create(Class.prototype)));
            }
        } catch (e) {
            if (e instanceof Runaway) break;
            ev.threw = errName(e);
        }
        ev.pk = [...pk].map(([i, o]) => ({ i, v: text(project(env, consts, root, o)), raw: exact(o) }));
        ev.bf = [...bf].map(([i, b]) => ({ i, v: hexOf(b) }));
        events.push(ev);
    }
    state.silent = false;
    traces.push({ events });
}

async function main() {
    const jobs = fs.readFileSync(process.argv[2], "utf8").split("\n").filter(Boolean).map((l) => JSON.parse(l));
    const out = fs.openSync(process.argv[3], "w");
    const prog = program(jobs);
    const checker = prog.getTypeChecker();
    for (const [i, job] of jobs.entries()) {
        const sf = prog.getSourceFile("/gen/m" + i + ".ts");
        const res = { id: job.id };
        const want = new Set(job.want || []);
        const d = decls(checker, sf);
        if (want.has("decls")) res.decls = d;
        if (want.has("scope")) res.scope = scope(sf);
        if (want.has("diags")) {
            res.diags = [...prog.getSyntacticDiagnostics(sf), ...prog.getSemanticDiagnostics(sf)]
                .map((x) => "TS" + x.code + " " + ts.flattenDiagnosticMessageText(x.messageText, " "));
        }
        if (job.runs && job.runs.length) {
            const consts = new Map(d.enums.map((e) => [e.name, new Map(e.members.map((m) => [m.name, m.value]))]));
            let js = "";
            prog.emit(sf, (f, text) => { if (f.endsWith(".js")) js = text; });
            const mod = await load(js);
            res.runs = job.runs.map((r) => stopped < ENOUGH ? runOne(job, mod, consts, r) : []);
        }
        fs.writeSync(out, JSON.stringify(res) + "\n");
    }
    fs.closeSync(out);
}
main().catch((e) => { console.error(e); process.exit(1); });
