'use strict';
// Answers one JSON request per line with one JSON line: { ok } or { error }.
// Bundled with the client and the stand-ins for what the client imports.
const k = require('./base.cjs');
const client = require('token-wrap-client');
const hex = b => Buffer.from(b).toString('hex');
const unhex = s => Uint8Array.from(Buffer.from(s, 'hex'));
const plain = v =>
    typeof v === 'bigint' ? { big: String(v) }
    : v instanceof Uint8Array ? { hex: hex(v) }
    : Array.isArray(v) ? v.map(plain)
    : typeof v === 'function' ? undefined
    : v && typeof v === 'object' ? Object.fromEntries(Object.entries(v).map(([a, b]) => [a, plain(b)]))
    : v;
const ix = i => ({
    program: i.programAddress,
    data: hex(i.data),
    accounts: i.accounts.map(a => ({ key: a.address, role: a.role, signer: a.signer === undefined ? null : a.signer.address })),
});
// {"signer": address}, {"big": digits}, {"hex": digits}, lists and objects of them
const value = v =>
    v === null || typeof v !== 'object' ? v
    : Array.isArray(v) ? v.map(value)
    : 'signer' in v ? k.signer(v.signer)
    : 'big' in v ? BigInt(v.big)
    : 'hex' in v ? unhex(v.hex)
    : Object.fromEntries(Object.entries(v).map(([a, b]) => [a, value(b)]));
function rpcOf(w) {
    // the data as it is asked for: a part of it, and base58 where no encoding is named
    const shown = (data, o) => {
        let b = Buffer.from(data, 'base64');
        if (o.dataSlice) b = b.subarray(Number(o.dataSlice.offset), Number(o.dataSlice.offset) + Number(o.dataSlice.length));
        return o.encoding === 'base64' ? [b.toString('base64'), 'base64'] : o.encoding ? [k.b58encode(b), 'base58'] : k.b58encode(b);
    };
    const of = (a, o) => {
        if (w.broken.includes(a)) throw new Error('the node is unwell');
        const x = w.accounts[a];
        return x ? { data: shown(x.data, o ?? {}), executable: false, lamports: BigInt(x.lamports), owner: x.owner, rentEpoch: 0n, space: BigInt(Buffer.from(x.data, 'base64').length) } : null;
    };
    const later = f => ({ send: async () => f() });
    return {
        getAccountInfo: (a, o) => later(() => ({ context: { slot: 1n }, value: of(a, o) })),
        getMultipleAccounts: (as, o) => later(() => ({ context: { slot: 1n }, value: as.map(a => of(a, o)) })),
        getBalance: a => later(() => ({ context: { slot: 1n }, value: of(a)?.lamports ?? 0n })),
        getMinimumBalanceForRentExemption: n =>
            later(() => {
                if (w.broken.includes('rent')) throw new Error('the node is unwell');
                return BigInt(w.rent[0]) + BigInt(w.rent[1]) * BigInt(n);
            }),
        getLatestBlockhash: () => later(() => ({ value: w.blockhash })),
    };
}
const message = m => ({ version: m.version, payer: m.feePayer?.address, payerSigns: k.isTransactionSigner(m.feePayer), lifetime: plain(m.lifetimeConstraint), ixs: m.instructions.map(ix), extra: Object.keys(m).filter(x => !['version', 'feePayer', 'lifetimeConstraint', 'instructions'].includes(x)) });
const ops = {
    hello: () => 'hello',
    pda: async q => await client[q.fn](value(q.seeds), ...(q.program ? [{ programAddress: q.program }] : [])),
    build: q => ix(client[q.fn](value(q.input), ...(q.program ? [{ programAddress: q.program }] : []))),
    plugin: q => {
        const c = client.tokenWrapProgram()({ rpc: null, other: 7 });
        if (c.other !== 7) throw new Error('the plugin loses the client');
        return ix(c.tokenWrap.instructions[q.fn](value(q.input)));
    },
    parse: q => {
        const i = { programAddress: q.program, data: unhex(q.data), accounts: q.accounts.map(a => ({ address: a.key, role: a.role })) };
        const p = q.fn ? client[q.fn](i) : client.parseTokenWrapInstruction(i);
        return plain(p);
    },
    identify: q => {
        const n = client.identifyTokenWrapInstruction(q.bare ? unhex(q.data) : { data: unhex(q.data) });
        return [n, client.TokenWrapInstruction[n]];
    },
    discriminators: q => q.fns.map(f => hex(client[f]())),
    message: q => client.getTokenWrapErrorMessage(q.code),
    isError: q =>
        client.isTokenWrapError(
            q.custom ? new k.SolanaError('INSTRUCTION_ERROR__CUSTOM', { code: q.code, index: q.index }) : new Error('no'),
            { instructions: q.programs.map(p => ({ programAddress: p })) },
            ...(q.want === null ? [] : [q.want]),
        ),
    codec: q => {
        const c = client[q.fn]();
        return q.value !== undefined ? { hex: hex(c.encode(value(q.value))) } : plain(c.decode(unhex(q.data)));
    },
    backpointer: async q => {
        const rpc = rpcOf(q.world);
        if (q.how === 'size') return client.getBackpointerSize();
        if (q.how === 'all' || q.how === 'allMaybe') {
            const xs = await (q.how === 'all' ? client.fetchAllBackpointer : client.fetchAllMaybeBackpointer)(rpc, q.addresses);
            return xs.map(x => (x.exists === false ? null : [x.address, x.data.unwrappedMint]));
        }
        const f = { one: 'fetchBackpointer', maybe: 'fetchMaybeBackpointer', seeds: 'fetchBackpointerFromSeeds', maybeSeeds: 'fetchMaybeBackpointerFromSeeds' }[q.how];
        const x = await client[f](rpc, q.how.toLowerCase().includes('seeds') ? { wrappedMint: q.mint } : q.addresses[0]);
        return x.exists === false ? null : [x.address, x.data.unwrappedMint];
    },
    createMint: async q => {
        const r = await client.createMint({ rpc: rpcOf(q.world), ...value(q.args) });
        return { ixs: r.ixs.map(ix), wrappedMint: r.wrappedMint, backpointer: r.backpointer, funded: [String(r.fundedWrappedMintLamports), String(r.fundedBackpointerLamports)] };
    },
    createEscrow: async q => {
        const r = await client.createEscrowAccount({ rpc: rpcOf(q.world), ...value(q.args) });
        return r.kind === 'already_exists' ? { kind: r.kind, address: r.account.address, mint: r.account.data.mint, owner: r.account.data.owner } : { kind: r.kind, address: r.address, ixs: r.ixs.map(ix) };
    },
    move: async q => {
        const r = await client[q.fn]({ rpc: rpcOf(q.world), ...value(q.args) });
        return { ixs: r.ixs.map(ix), result: plain(Object.fromEntries(Object.entries(r).filter(([x]) => x !== 'ixs'))) };
    },
    offline: async q => message(await client[q.fn](value(q.args))),
    combine: q => {
        const t = client.combinedMultisigTx({
            blockhash: value(q.blockhash),
            signedTxs: q.txs.map(t => ({
                messageBytes: unhex(t.message),
                signatures: Object.fromEntries(t.signatures.map(([a, s]) => [a, s === null ? null : unhex(s)])),
                lifetimeConstraint: value(q.blockhash),
            })),
        });
        return { message: hex(t.messageBytes), signatures: Object.entries(t.signatures).map(([a, s]) => [a, hex(s)]), lifetime: plain(t.lifetimeConstraint) };
    },
};
let rest = '';
let chain = Promise.resolve();
process.stdin.setEncoding('utf8');
process.stdin.on('data', d => {
    rest += d;
    for (let i; (i = rest.indexOf('\n')) >= 0; rest = rest.slice(i + 1)) {
        const line = rest.slice(0, i);
        chain = chain.then(async () => {
            let out;
            try {
                const q = JSON.parse(line);
                out = { ok: (await ops[q.op](q)) ?? null };
            } catch (e) {
                out = { error: String(e?.message ?? e) };
            }
            process.stdout.write(JSON.stringify(out) + '\n');
        });
    }
});
