"use strict";
// The packet runtime which generated code is linked with. It stores numbers
// little endian and one byte per character, and logs every call.

const SIZES = { uint8: 1, uint16: 2, uint32: 4, int8: 1, int16: 2, int32: 4, float: 4 };
const GET = { uint8: "getUint8", uint16: "getUint16", uint32: "getUint32", int8: "getInt8", int16: "getInt16", int32: "getInt32", float: "getFloat32" };
const SET = { uint8: "setUint8", uint16: "setUint16", uint32: "setUint32", int8: "setInt8", int16: "setInt16", int32: "setInt32", float: "setFloat32" };

class Runaway extends Error {}

function show(v) {
    if (typeof v === "number") return Object.is(v, -0) ? "-0" : String(v);
    if (typeof v === "string") return v;
    return "!" + typeof v;
}
function small(v) {
    return typeof v === "number" && Number.isInteger(v) && v >= 0 ? Math.min(v, 1000000000) : -1;
}

function make(state) {
    // state: { log: [], clamp: number or 0, budget: calls allowed, silent: no log }
    const log = (ev) => {
        if (!state.silent) state.log.push(ev);
        if (++state.used > state.budget) throw new Runaway("more than " + state.budget + " calls");
    };
    class Reader {
        constructor(data) {
            this.bytes = data instanceof ArrayBuffer ? data : new ArrayBuffer(0);
            this.view = new DataView(this.bytes);
            this.at = 0;
            this.failed = false;
            state.reader = this;
            if (state.watch) log({ e: "rnew", same: data === state.given });
        }
        read_string(len) {
            let v = "", bad = false;
            if (!(Number.isInteger(len) && len >= 0) || this.at + len > this.bytes.byteLength) { this.failed = true; bad = true; }
            else {
                for (let i = 0; i < len; ++i) v += String.fromCharCode(this.view.getUint8(this.at + i));
                this.at += len;
            }
            log({ e: "r", op: "string", v, n: 0, len: small(len), bad });
            return v;
        }
    }
    class Writer {
        constructor(buffer) {
            this.out = [];
            state.writer = this;
            log({ e: "wnew", given: buffer === undefined ? "none" : buffer === state.given ? "same" : "other" });
        }
        write_string(v) {
            log({ e: "w", op: "string", v: typeof v === "string" ? v : "!" + typeof v });
            for (let i = 0; i < String(v).length; ++i) this.out.push(String(v).charCodeAt(i) & 255);
        }
        finish() {
            state.finished = new Uint8Array(this.out).buffer;
            if (state.watch) log({ e: "wfin" });
            return state.finished;
        }
    }
    for (const op of Object.keys(SIZES)) {
        Reader.prototype["read_" + op] = function () {
            let v = 0, bad = false;
            if (this.at + SIZES[op] > this.bytes.byteLength) { this.failed = true; bad = true; }
            else {
                v = this.view[GET[op]](this.at, true);
                if (state.clamp && op === "uint32" && v > state.clamp) {
                    // as if the packet had held a smaller number here
                    v = v % (state.clamp + 1);
                    this.view.setUint32(this.at, v, true);
                }
                this.at += SIZES[op];
            }
            log({ e: "r", op, v: show(v), n: small(v), len: 0, bad });
            return v;
        };
        Writer.prototype["write_" + op] = function (v) {
            log({ e: "w", op, v: typeof v === "number" ? show(v) : "!" + typeof v });
            const b = new DataView(new ArrayBuffer(SIZES[op]));
            b[SET[op]](0, Number(v), true);
            for (let i = 0; i < SIZES[op]; ++i) this.out.push(b.getUint8(i));
        };
    }
    return { Reader, Writer };
}

module.exports = { make, Runaway, SIZES };
