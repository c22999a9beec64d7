// C43: runs the functions that ask GraphQL nodes, with a network that this program controls: all
// sequences of what the network does to up to three attempts. Prints one JSON document.
'use strict';
const v1 = '/repo/network/js/graphql_v1_utils.js';
const berkeley = '/repo/network/js/graphql_berkeley_utils.js';
const thorough = process.argv[2] === 'thorough';

const out = { states: 0, transitions: 0, traces: 0, outcomes: {}, bounds: [], violations: [], answers: [] };
const wrong = (s) => { if (out.violations.length < 20) out.violations.push(s); };
const count = (k) => { out.outcomes[k] = (out.outcomes[k] || 0) + 1; };
const same = (a, b) => require('util').isDeepStrictEqual(a, b);

// ------------------------------------------------------------ a GraphQL server
function tokens(s) {
    const t = [];
    const re = /\s+|,|#[^\n]*|([_A-Za-z][_0-9A-Za-z]*)|(-?[0-9]+)|("(?:[^"\\\n]|\\.)*")|([{}()\[\]:!$=@]|\.\.\.)/gy;
    while (re.lastIndex < s.length) {
        const at = re.lastIndex;
        const m = re.exec(s);
        if (!m) throw new Error('syntax error at ' + JSON.stringify(s.slice(at, at + 20)));
        if (m[1] !== undefined || m[2] !== undefined || m[3] !== undefined || m[4] !== undefined) t.push(m[0]);
    }
    return t;
}
/// A query; `$name` stands for what `variables` says.
function parse(s, variables) {
    const t = tokens(s);
    let i = 0;
    const take = (x) => { if (t[i] !== x) throw new Error(`expected ${x}, found ${t[i]}`); i++; };
    const name = () => { if (!/^[_A-Za-z]/.test(t[i] || '')) throw new Error(`expected a name, found ${t[i]}`); return t[i++]; };
    const value = () => {
        const x = t[i++];
        if (x === undefined) throw new Error('expected a value');
        if (x === '$') {
            const n = name();
            if (!(n in declared)) throw new Error(`no variable ${n}`);
            return variables && n in variables ? variables[n] : declared[n];
        }
        return x[0] === '"' ? JSON.parse(x) : /^-?[0-9]/.test(x) ? Number(x) : { name: x };
    };
    const selection = () => {
        take('{');
        const fields = [];
        while (t[i] !== '}') {
            let alias = name(), field = alias;
            if (t[i] === ':') { i++; field = name(); }
            const args = {};
            if (t[i] === '(') {
                i++;
                do { const n = name(); take(':'); args[n] = value(); } while (t[i] !== ')');
                i++;
            }
            fields.push({ alias, field, args, sub: t[i] === '{' ? selection() : null });
        }
        if (!fields.length) throw new Error('an empty selection');
        i++;
        return fields;
    };
    let operation = null;
    const declared = {};
    if (t[i] === 'query') {
        i++;
        if (t[i] !== '{' && t[i] !== '(') operation = name();
        if (t[i] === '(') {
            i++;
            do {
                take('$');
                const n = name();
                take(':');
                while (/^[\[\]!]$/.test(t[i]) || /^[_A-Za-z]/.test(t[i] || '')) i++;
                declared[n] = undefined;
                if (t[i] === '=') { i++; declared[n] = value(); }
            } while (t[i] !== ')');
            i++;
        }
    }
    const fields = selection();
    if (i !== t.length) throw new Error('more after the query');
    return { operation, fields };
}
function resolve(fields, on) {
    if (on === null) return null;
    if (Array.isArray(on)) return on.map((x) => resolve(fields, x));
    if (fields === null) {
        if (typeof on === 'object') throw new Error('an object needs a selection');
        return on;
    }
    if (typeof on !== 'object') throw new Error('a scalar has no selection');
    const r = {};
    for (const f of fields) {
        if (!(f.field in on)) throw new Error(`no field ${f.field}`);
        const x = on[f.field];
        const got = resolve(f.sub, typeof x === 'function' ? x(f.args) : x);
        if (f.alias in r && !same(r[f.alias], got)) throw new Error(`two members ${f.alias}`);
        r[f.alias] = got;
    }
    return r;
}
/// What a server with these data says to a request: a body.
function serve(data, req) {
    let answer;
    try {
        if (req.method !== 'POST') throw new Error('method ' + req.method);
        if (!/^application\/json/.test(req.type || '')) throw new Error('type ' + req.type);
        const body = JSON.parse(req.body);
        const q = parse(body.query, body.variables);
        if (body.operationName && body.operationName !== q.operation) throw new Error(`no operation ${body.operationName}`);
        answer = { data: resolve(q.fields, data) };
    } catch (e) {
        answer = { errors: [{ message: String(e) }] };
    }
    return answer;
}

// ------------------------------------------------------------ the network
/// What happens to an attempt. Only 'good' brings the answer.
const HAPPENINGS = ['good', 'refused', 'html', 'cut', 'reset', 'errors', 'null'];
let plan, calls, handler;
async function observe(input, init) {
    const r = input instanceof Request ? input : new Request(input, init);
    const body = r.method === 'GET' ? null : await r.text();
    return { url: typeof input === 'string' ? input : r.url, method: r.method, type: r.headers.get('content-type'), body };
}
globalThis.fetch = async (input, init) => {
    const n = calls.length;
    const req = await observe(input, init);
    calls.push(req);
    const what = n < plan.length ? plan[n] : 'good';
    const answer = handler(req);
    const text = JSON.stringify(answer);
    const reply = (s) => new Response(s, { status: 200, headers: { 'content-type': 'application/json' } });
    switch (what) {
        case 'good': return reply(text);
        case 'refused': throw new TypeError(`fetch failed: attempt ${n}`);
        case 'html': return new Response('<html>502</html>', { status: 502 });
        case 'cut': return reply(text.slice(0, text.length - 1));
        case 'reset': return reply(new ReadableStream({ start(c) { c.enqueue(new TextEncoder().encode(text.slice(0, 2))); c.error(new Error(`reset: attempt ${n}`)); } }));
        case 'errors': return reply('{"errors":[{"message":"busy"}],"data":null}');
        case 'null': return reply('null');
        default: throw new Error(what);
    }
};

const { fetch_block_json, fetch_block_json_str, query_latest_blocks_json, query_latest_blocks_json_str } = require(v1);
const { fetch_best_chain_json, fetch_best_chain_json_str } = require(berkeley);

/// Sequences of happenings: after the first 'good' nothing more is planned.
function plans(kinds) {
    const all = [['good']];
    const bad = kinds.filter((k) => k !== 'good');
    for (const a of bad) {
        all.push([a, 'good']);
        for (const b of bad) {
            all.push([a, b, 'good']);
            for (const c of bad) all.push([a, b, c]);
        }
    }
    return all;
}

/// Runs one function under one plan; `expect(calls)` says what is wrong with the requests made.
async function run(what, f, p, want, text, judge) {
    plan = p;
    calls = [];
    let got, failed = false;
    try {
        got = await f();
    } catch (e) {
        failed = true;
        got = e;
    }
    out.states += 1;
    out.transitions += calls.length;
    out.traces += 1;
    const good = p.indexOf('good');
    const attempts = good < 0 ? p.length : good + 1;
    const say = () => `${what}, with ${p.join(', ')}`;
    if (calls.length !== attempts) wrong(`${say()}: ${calls.length} requests, expected ${attempts}`);
    for (const c of calls) {
        const w = judge(c);
        if (w) { wrong(`${say()}: the request ${JSON.stringify(c)}: ${w}`); break; }
    }
    count(good < 0 ? 'all attempts fail' : `attempt ${good + 1} succeeds`);
    if (good < 0) {
        if (!failed) wrong(`${say()}: gives ${JSON.stringify(got)}, expected a failure`);
        return undefined;
    }
    if (failed) { wrong(`${say()}: fails with ${got}, expected an answer`); return undefined; }
    let value = got;
    if (text) {
        if (typeof got !== 'string') { wrong(`${say()}: gives ${typeof got}, expected a text`); return undefined; }
        try { value = JSON.parse(got); } catch (e) { wrong(`${say()}: gives ${got}, which is no JSON`); return undefined; }
    }
    const w = want();
    if (w !== undefined && !same(value, w)) wrong(`${say()}: gives ${JSON.stringify(value).slice(0, 400)}, expected ${JSON.stringify(w).slice(0, 400)}`);
    return value;
}

function arrangements(xs) {
    const all = [[]];
    for (let i = 0; i < all.length; i++) for (const x of xs) if (!all[i].includes(x)) all.push([...all[i], x]);
    return all;
}

// ------------------------------------------------------------ blocks by height and hash
async function blocks() {
    const ps = plans(HAPPENINGS.filter((k) => k !== 'errors' && k !== 'null'));
    const heights = [0, 1, 25718, 2 ** 32 - 1];
    const hashes = ['3NLQanLUpZLAbkciDnUs6bQGkgg48UqatpZxShHuLWSudG4M9iyn', '3NKeMoncuHab5ScarV5ViyF16cJPT4taWNSaTLS64Dp67wuXigPZ'];
    for (const network of [undefined, 'mainnet', 'devnet']) for (const height of heights) for (const hash of hashes) {
        const url = `https://storage.googleapis.com/mina_network_block_data/${network || 'mainnet'}-${height}-${hash}.json`;
        const block = { protocol_state: { previous_state_hash: hash, body: [height, null, true, 'é"\\'] } };
        handler = () => block;
        const judge = (c) => (c.url !== url ? `expected ${url}` : c.method !== 'GET' ? 'expected GET' : null);
        for (const p of ps) {
            await run(`fetch_block_json(${height}, ${hash}, ${network})`, () => fetch_block_json(height, hash, network), p, () => block, false, judge);
            await run(`fetch_block_json_str(${height}, ${hash}, ${network})`, () => fetch_block_json_str(height, hash, network), p, () => block, true, judge);
        }
    }
    out.bounds.push(`blocks: ${heights.length * hashes.length} blocks on 2 networks, ${ps.length} sequences of what happens to the attempts`);
}

// ------------------------------------------------------------ the latest blocks
async function latest() {
    const ps = plans(HAPPENINGS);
    for (const n of [0, 1, 5, 12]) {
        // by time received, not by height
        const all = [...Array(n).keys()].map((i) => ({ blockHeight: (i * 7) % 13, stateHash: `hash${i}`, receivedTime: i, canonical: i % 2 === 0 }));
        const data = {
            blocks: (a) => {
                const sort = a.sortBy && (a.sortBy.name || a.sortBy);
                const key = { RECEIVEDTIME_DESC: (x, y) => y.receivedTime - x.receivedTime, RECEIVEDTIME_ASC: (x, y) => x.receivedTime - y.receivedTime, BLOCKHEIGHT_DESC: (x, y) => y.blockHeight - x.blockHeight, BLOCKHEIGHT_ASC: (x, y) => x.blockHeight - y.blockHeight }[sort];
                const sorted = key ? [...all].sort(key) : all;
                return sorted.slice(0, a.limit === undefined ? 100 : a.limit);
            },
        };
        handler = (c) => serve(data, c);
        const judge = (c) => (c.url.replace(/\/$/, '') !== 'https://graphql.minaexplorer.com' ? 'expected https://graphql.minaexplorer.com/' : null);
        for (const limit of [undefined, 0, 1, 2, 10, 11]) {
            const want = () => [...all].reverse().slice(0, limit === undefined ? 10 : limit).map((b) => ({ blockHeight: b.blockHeight, stateHash: b.stateHash }));
            // members besides those the callers read are not looked at
            const pick = async (f) => { const r = await f(); return typeof r === 'string' ? JSON.stringify(JSON.parse(r).map((b) => ({ blockHeight: b.blockHeight, stateHash: b.stateHash }))) : r.map((b) => ({ blockHeight: b.blockHeight, stateHash: b.stateHash })); };
            for (const p of ps) {
                // an answer without data must not be taken for one without blocks
                await run(`query_latest_blocks_json(${limit}), of ${n}`, () => pick(() => query_latest_blocks_json(limit)), p, want, false, judge);
                await run(`query_latest_blocks_json_str(${limit}), of ${n}`, () => pick(() => query_latest_blocks_json_str(limit)), p, want, true, judge);
            }
        }
    }
    out.bounds.push(`latest blocks: of 0, 1, 5, 12 blocks, 6 limits, ${ps.length} sequences of what happens to the attempts`);
}

// ------------------------------------------------------------ the best chain
const KEYS = ['B62qiy32p8kAKnny8ZFwoMhYpBppM1DWVCqAPBYNcXnsAHhnfAAuXgg', 'B62qknCv9QdyAvt4Te58oo3nrZTacpEcjpJg1MV61r94h5rDPDUyPP8', 'B62qrPN5Y5yq8kGE3FbVKbGTdTAJNdtNtB5sNVpxyRwWGcDEhpMzc8g'];
const HASH = '3NK2tkzqqK5spR2sZ7tujjqPksL45M3UUrcA4WhCkeiPtnugyE2x';
const LEDGERS = ['jwCg94ZjPhMA49CxbWySzs1uBPTGDwVn9gAa3XmiX43a9aJiV4T', 'jwNYQU34Jb9FD6ZbKnWRALZqVDKbMrjZBKWFYZwAw8ZPMgv9Ld4'];
/// Block n as a node knows it; every number of it differs from that of every other member.
function block(n) {
    let k = 100 * n;
    const next = () => String(++k);
    const epoch = () => ({ epochLength: next(), lockCheckpoint: HASH, seed: '2vafPBQ3zQdHUEDDnFGuiNvJz7s2MhTLJgSzQSnu5fnZavT27cms', startCheckpoint: '3NK7nrZPxZ1vQRzNBnAfK5coYmdgygEHbRQ1GTT8f3o6b4dFWchL', ledger: { hash: LEDGERS[1], totalCurrency: next() } });
    const length = next();
    return {
        stateHash: HASH, commandTransactionCount: 0,
        protocolState: {
            previousStateHash: '3NK7nrZPxZ1vQRzNBnAfK5coYmdgygEHbRQ1GTT8f3o6b4dFWchL',
            consensusState: {
                blockCreator: KEYS[0], blockHeight: length, blockStakeWinner: KEYS[1], blockchainLength: length, coinbaseReceiever: KEYS[2],
                epoch: '7', epochCount: '7', hasAncestorInSameCheckpointWindow: true, lastVrfOutput: '48H9Qk4D6RzS9kAJQX9HCDjiJ5qLiopxgxaS6xbDCWNaKQMQ9Y4C',
                minWindowDensity: next(), slot: next(), slotSinceGenesis: next(), superchargedCoinbase: n % 2 === 0, totalCurrency: next(), nextEpochData: epoch(), stakingEpochData: epoch(),
            },
            blockchainState: {
                bodyReference: '36bda176656cc3be96c3d317db7b4ac06fdbc7f4eedcd6efdd20e28143d67421', date: next(), snarkedLedgerHash: LEDGERS[1],
                stagedLedgerAuxHash: 'UDRUFHSvxUAtV8sh7gzMVPqpbd46roG1wzWR6dYvB6RunPihom', stagedLedgerHash: LEDGERS[1],
                stagedLedgerPendingCoinbaseAux: 'WAAeUjUnP9Q2JiabhJzJozcjiEmkZe8ob4cfFKSuq6pQSNmHh7', stagedLedgerPendingCoinbaseHash: '2mzvU1MA5JjDUrLsKk6KFFj4CPn6bnHjN5Fi779U96JUbZNwoTvF',
                stagedLedgerProofEmitted: false, utcDate: String(k),
            },
        },
    };
}
const account = (i) => ({ publicKey: KEYS[i], nonce: String(i), leafHash: String(1000 + i), merklePath: [{ left: String(10 + i), right: null }, { left: null, right: String(20 + i) }].slice(0, 2) });

async function best() {
    const ps = plans(HAPPENINGS);
    const some = thorough ? ps : ps.filter((p) => p.length < 3 || p[0] === p[1]);
    const lists = [undefined, null, ...arrangements(KEYS)];
    const endpoints = ['http://localhost:3085/graphql', 'https://b.example/graphql'];
    for (const chain of [1, 2, 3]) for (const missing of [false, true]) {
        const data = {
            bestChain: (a) => [...Array(chain).keys()].map(block).slice(a.maxLength === undefined ? 0 : Math.max(0, chain - a.maxLength)),
            genesisBlock: { stateHash: HASH, protocolState: { previousStateHash: HASH, blockchainState: { snarkedLedgerHash: LEDGERS[0], stagedLedgerHash: LEDGERS[1] } } },
            account: (a) => { const i = KEYS.indexOf(a.publicKey); return i < 0 || (missing && i === 1) ? null : account(i); },
        };
        handler = (c) => serve(data, c);
        for (const endpoint of endpoints) for (const list of lists) {
            const judge = (c) => (c.url !== endpoint ? `expected ${endpoint}` : null);
            const what = (n) => `${n}(${endpoint}, ${JSON.stringify(list)}), chain of ${chain}${missing ? ', an account missing' : ''}`;
            for (const p of (list || []).length < 2 && endpoint === endpoints[0] ? ps : some) {
                for (const text of [false, true]) {
                    const f = text ? fetch_best_chain_json_str : fetch_best_chain_json;
                    const got = await run(what(f.name), () => f(endpoint, list && [...list]), p, () => undefined, text, judge);
                    if (got === undefined) continue;
                    // members that are asked for have their values; Rust looks at what is there
                    const want = { bestChain: data.bestChain({}), genesisBlock: data.genesisBlock };
                    want.bestChain[0].protocolState.blockchainState.genesisLedgerHash = LEDGERS[0];
                    for (const k of list || []) want[k] = data.account({ publicKey: k });
                    const w = within(got, want, '');
                    if (w) wrong(`${what(f.name)}, with ${p.join(', ')}: ${w}`);
                    for (const k of list || []) if (!(k in got)) wrong(`${what(f.name)}: no account ${k}`);
                    if (text && p.length === 1 && endpoint === endpoints[0]) out.answers.push({ full: want, got, missing: missing && (list || []).includes(KEYS[1]) });
                }
            }
        }
    }
    // a chain that is empty is no answer
    for (const chain of [[], null]) {
        handler = (c) => serve({ bestChain: () => chain, genesisBlock: { protocolState: { blockchainState: { snarkedLedgerHash: LEDGERS[0] } } }, account: () => null }, c);
        await run('fetch_best_chain_json, an empty chain', async () => { try { return await fetch_best_chain_json(endpoints[0], []); } catch (e) { throw e; } }, ['errors', 'errors', 'errors'], () => undefined, false, () => null);
        plan = []; calls = [];
        let failed = false;
        try { await fetch_best_chain_json_str(endpoints[0], [KEYS[0]]); } catch (e) { failed = true; }
        out.states += 1; out.traces += 1; out.transitions += calls.length;
        if (!failed || calls.length > 3) wrong(`a best chain ${JSON.stringify(chain)}: ${failed ? 'failed' : 'an answer'} after ${calls.length} requests`);
    }
    out.bounds.push(`best chain: chains of 1 to 3, ${lists.length} lists of accounts, ${ps.length} sequences of what happens to the attempts`);
}
/// The members of `got` are those of `all`.
function within(got, all, at) {
    if (got === null || typeof got !== 'object') return same(got, all) ? null : `${at} is ${JSON.stringify(got)}, expected ${JSON.stringify(all)}`;
    if (all === null || typeof all !== 'object') return `${at} is an object, expected ${JSON.stringify(all)}`;
    if (Array.isArray(got) && got.length !== all.length) return `${at} has ${got.length} members, expected ${all.length}`;
    for (const k of Object.keys(got)) {
        if (!(k in all)) return `${at}.${k} is unexpected`;
        const w = within(got[k], all[k], `${at}.${k}`);
        if (w) return w;
    }
    return null;
}

(async () => {
    await blocks();
    await latest();
    await best();
    process.stdout.write(JSON.stringify(out));
})();
