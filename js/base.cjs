// What @solana/kit and the clients it is used with do, as far as they are documented:
// codecs, addresses, accounts and transaction messages. Written for the checks, since the
// packages themselves are not installed. CommonJS, so that a name nobody needs may be absent.
'use strict';
const { createHash } = require('node:crypto');

// ---- errors ----
class SolanaError extends Error {
    constructor(code, context = {}) {
        super(`Solana error ${String(code)} ${JSON.stringify(context, (_, v) => (typeof v === 'bigint' ? String(v) : v))}`);
        this.name = 'SolanaError';
        this.context = { __code: code, ...context };
    }
}
const isSolanaError = (e, code) => e instanceof SolanaError && (code === undefined || e.context.__code === code);
const fail = (code, ctx) => {
    throw new SolanaError(code, ctx);
};

// ---- base58 ----
const A = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
function b58encode(bytes) {
    let n = 0n;
    for (const b of bytes) n = n * 256n + BigInt(b);
    let s = '';
    while (n > 0n) {
        s = A[Number(n % 58n)] + s;
        n /= 58n;
    }
    for (const b of bytes) {
        if (b !== 0) break;
        s = '1' + s;
    }
    return s;
}
function b58decode(s) {
    let n = 0n;
    for (const c of s) {
        const i = A.indexOf(c);
        if (i < 0) fail('CODECS__INVALID_STRING_FOR_BASE', { value: s, base: 58 });
        n = n * 58n + BigInt(i);
    }
    const out = [];
    while (n > 0n) {
        out.unshift(Number(n & 255n));
        n >>= 8n;
    }
    for (const c of s) {
        if (c !== '1') break;
        out.unshift(0);
    }
    return Uint8Array.from(out);
}

// ---- codecs ----
// An encoder has encode/write and fixedSize or getSizeFromValue; a decoder has decode/read.
function createEncoder(e) {
    return Object.freeze({
        ...e,
        encode: value => {
            const bytes = new Uint8Array('fixedSize' in e ? e.fixedSize : e.getSizeFromValue(value));
            e.write(value, bytes, 0);
            return bytes;
        },
    });
}
function createDecoder(d) {
    return Object.freeze({ ...d, decode: (bytes, offset = 0) => d.read(bytes, offset)[0] });
}
function createCodec(c) {
    return Object.freeze({ ...createEncoder(c), decode: (bytes, offset = 0) => c.read(bytes, offset)[0], read: c.read });
}
const sizeOf = (e, v) => ('fixedSize' in e ? e.fixedSize : e.getSizeFromValue(v));
const isFixedSize = c => 'fixedSize' in c;
function combineCodec(e, d) {
    if (isFixedSize(e) !== isFixedSize(d)) fail('CODECS__ENCODER_DECODER_SIZE_COMPATIBILITY_MISMATCH');
    if (isFixedSize(e) && e.fixedSize !== d.fixedSize) fail('CODECS__ENCODER_DECODER_FIXED_SIZE_MISMATCH');
    return { ...d, ...e, decode: d.decode, encode: e.encode, read: d.read, write: e.write };
}
function transformEncoder(e, f) {
    return createEncoder({
        ...('fixedSize' in e ? { fixedSize: e.fixedSize } : { getSizeFromValue: v => e.getSizeFromValue(f(v)) }),
        write: (v, bytes, o) => e.write(f(v), bytes, o),
    });
}
function transformDecoder(d, f) {
    return createDecoder({
        ...('fixedSize' in d ? { fixedSize: d.fixedSize } : {}),
        read: (bytes, o) => {
            const [v, n] = d.read(bytes, o);
            return [f(v, bytes, o), n];
        },
    });
}
const Endian = { Little: 0, Big: 1, 0: 'Little', 1: 'Big' };
function int(size, big, signed = false) {
    const bits = BigInt(8 * size);
    const [min, max] = signed ? [-(1n << (bits - 1n)), (1n << (bits - 1n)) - 1n] : [0n, (1n << bits) - 1n];
    const at = (o, i, c) => (c?.endian === Endian.Big ? o + size - 1 - i : o + i);
    const enc = c =>
        createEncoder({
            fixedSize: size,
            write: (v, bytes, o) => {
                if (typeof v !== 'bigint' && typeof v !== 'number') fail('CODECS__NUMBER', { value: String(v) });
                if (v < min || v > max) fail('CODECS__NUMBER_OUT_OF_RANGE', { value: v });
                let n = BigInt.asUintN(Number(bits), BigInt(v));
                for (let i = 0; i < size; i++) {
                    bytes[at(o, i, c)] = Number(n & 255n);
                    n >>= 8n;
                }
                return o + size;
            },
        });
    const dec = c =>
        createDecoder({
            fixedSize: size,
            read: (bytes, o) => {
                enough(bytes, o, size);
                let n = 0n;
                for (let i = size - 1; i >= 0; i--) n = (n << 8n) | BigInt(bytes[at(o, i, c)]);
                if (signed) n = BigInt.asIntN(Number(bits), n);
                return [big ? n : Number(n), o + size];
            },
        });
    return [enc, dec, c => combineCodec(enc(c), dec(c))];
}
function enough(bytes, o, n) {
    if (bytes.length - o <= 0 && n > 0) fail('CODECS__CANNOT_DECODE_EMPTY_BYTE_ARRAY');
    if (bytes.length - o < n) fail('CODECS__INVALID_BYTE_LENGTH', { bytesLength: bytes.length - o, expected: n });
}
const INTS = {};
for (const [name, ...args] of [
    ['U8', 1, false], ['U16', 2, false], ['U32', 4, false], ['U64', 8, true], ['U128', 16, true],
    ['I8', 1, false, true], ['I16', 2, false, true], ['I32', 4, false, true], ['I64', 8, true, true], ['I128', 16, true, true],
])
    [INTS[`get${name}Encoder`], INTS[`get${name}Decoder`], INTS[`get${name}Codec`]] = int(...args);
const { getU8Encoder, getU8Decoder, getU32Encoder, getU32Decoder } = INTS;
const getBooleanEncoder = (c = {}) => transformEncoder(c.size ?? getU8Encoder(), v => (v ? 1 : 0));
const getBooleanDecoder = (c = {}) => transformDecoder(c.size ?? getU8Decoder(), v => Number(v) === 1);
const getBooleanCodec = c => combineCodec(getBooleanEncoder(c), getBooleanDecoder(c));
function getBytesEncoder() {
    return createEncoder({
        getSizeFromValue: v => v.length,
        write: (v, bytes, o) => {
            bytes.set(v, o);
            return o + v.length;
        },
    });
}
const getBytesDecoder = () => createDecoder({ read: (bytes, o) => [bytes.slice(o), bytes.length] });
const getBytesCodec = () => combineCodec(getBytesEncoder(), getBytesDecoder());
const utf8 = s => new TextEncoder().encode(s);
const getUtf8Encoder = () => transformEncoder(getBytesEncoder(), utf8);
const getUtf8Decoder = () => transformDecoder(getBytesDecoder(), b => new TextDecoder().decode(b));
const getUtf8Codec = () => combineCodec(getUtf8Encoder(), getUtf8Decoder());
const getBase58Encoder = () => transformEncoder(getBytesEncoder(), b58decode);
const getBase58Decoder = () => transformDecoder(getBytesDecoder(), b58encode);
const getBase58Codec = () => combineCodec(getBase58Encoder(), getBase58Decoder());
const getBase64Encoder = () => transformEncoder(getBytesEncoder(), s => Uint8Array.from(Buffer.from(s, 'base64')));
const getBase64Decoder = () => transformDecoder(getBytesDecoder(), b => Buffer.from(b).toString('base64'));
function isAddress(s) {
    if (typeof s !== 'string' || s.length < 32 || s.length > 44) return false;
    try {
        return b58decode(s).length === 32;
    } catch {
        return false;
    }
}
function assertIsAddress(s) {
    if (!isAddress(s)) fail('ADDRESSES__INVALID_BASE58_ENCODED_ADDRESS', { putativeAddress: s });
}
function address(s) {
    assertIsAddress(s);
    return s;
}
const getAddressEncoder = () =>
    createEncoder({
        fixedSize: 32,
        write: (v, bytes, o) => {
            assertIsAddress(v);
            bytes.set(b58decode(v), o);
            return o + 32;
        },
    });
const getAddressDecoder = () =>
    createDecoder({
        fixedSize: 32,
        read: (bytes, o) => {
            enough(bytes, o, 32);
            return [b58encode(bytes.slice(o, o + 32)), o + 32];
        },
    });
const getAddressCodec = () => combineCodec(getAddressEncoder(), getAddressDecoder());
function getStructEncoder(fields) {
    const fixed = fields.every(([, c]) => isFixedSize(c));
    return createEncoder({
        ...(fixed
            ? { fixedSize: fields.reduce((n, [, c]) => n + c.fixedSize, 0) }
            : { getSizeFromValue: v => fields.reduce((n, [k, c]) => n + sizeOf(c, v[k]), 0) }),
        write: (v, bytes, o) => {
            for (const [k, c] of fields) o = c.write(v[k], bytes, o);
            return o;
        },
    });
}
function getStructDecoder(fields) {
    const fixed = fields.every(([, c]) => isFixedSize(c));
    return createDecoder({
        ...(fixed ? { fixedSize: fields.reduce((n, [, c]) => n + c.fixedSize, 0) } : {}),
        read: (bytes, o) => {
            const v = {};
            for (const [k, c] of fields) [v[k], o] = c.read(bytes, o);
            return [v, o];
        },
    });
}
const getStructCodec = f => combineCodec(getStructEncoder(f), getStructDecoder(f));
const getTupleEncoder = items => transformEncoder(getStructEncoder(items.map((c, i) => [i, c])), v => v);
const getTupleDecoder = items => transformDecoder(getStructDecoder(items.map((c, i) => [i, c])), v => items.map((_, i) => v[i]));
const getTupleCodec = items => combineCodec(getTupleEncoder(items), getTupleDecoder(items));
const getConstantEncoder = b => createEncoder({ fixedSize: b.length, write: (_, bytes, o) => (bytes.set(b, o), o + b.length) });
const getConstantDecoder = b =>
    createDecoder({
        fixedSize: b.length,
        read: (bytes, o) => {
            if (!containsBytes(bytes, b, o)) fail('CODECS__INVALID_CONSTANT');
            return [undefined, o + b.length];
        },
    });
const getConstantCodec = b => combineCodec(getConstantEncoder(b), getConstantDecoder(b));
function addEncoderSizePrefix(e, p) {
    return createEncoder({
        getSizeFromValue: v => sizeOf(p, sizeOf(e, v)) + sizeOf(e, v),
        write: (v, bytes, o) => e.write(v, bytes, p.write(sizeOf(e, v), bytes, o)),
    });
}
function addDecoderSizePrefix(d, p) {
    return createDecoder({
        read: (bytes, o) => {
            const [n, at] = p.read(bytes, o);
            enough(bytes, at, Number(n));
            return [d.read(bytes.slice(at, at + Number(n)), 0)[0], at + Number(n)];
        },
    });
}
const addCodecSizePrefix = (c, p) => combineCodec(addEncoderSizePrefix(c, p), addDecoderSizePrefix(c, p));
function getNullableEncoder(e, c = {}) {
    const p = c.prefix ?? getU8Encoder();
    return createEncoder({
        getSizeFromValue: v => sizeOf(p, 0) + (v === null ? 0 : sizeOf(e, v)),
        write: (v, bytes, o) => ((o = p.write(Number(v !== null), bytes, o)), v === null ? o : e.write(v, bytes, o)),
    });
}
function getNullableDecoder(d, c = {}) {
    const p = c.prefix ?? getU8Decoder();
    return createDecoder({
        read: (bytes, o) => {
            const [n, at] = p.read(bytes, o);
            return Number(n) === 0 ? [null, at] : d.read(bytes, at);
        },
    });
}
const getNullableCodec = (x, c) => combineCodec(getNullableEncoder(x, c), getNullableDecoder(x, c));
const getOptionEncoder = (e, c) => transformEncoder(getNullableEncoder(e, c), v => (isOption(v) ? unwrapOption(v) : v));
const getOptionDecoder = (d, c) => transformDecoder(getNullableDecoder(d, c), wrapNullable);
const getOptionCodec = (x, c) => combineCodec(getOptionEncoder(x, c), getOptionDecoder(x, c));
function fixEncoderSize(e, n) {
    return createEncoder({
        fixedSize: n,
        write: (v, bytes, o) => {
            const b = e.encode(v).slice(0, n);
            bytes.set(b, o);
            return o + n;
        },
    });
}
function fixDecoderSize(d, n) {
    return createDecoder({
        fixedSize: n,
        read: (bytes, o) => {
            enough(bytes, o, n);
            return [d.read(bytes.slice(o, o + n), 0)[0], o + n];
        },
    });
}
function containsBytes(data, bytes, offset) {
    const s = offset === 0 && data.length === bytes.length ? data : data.slice(offset, offset + bytes.length);
    return s.length === bytes.length && bytes.every((b, i) => b === s[i]);
}
const bytesEqual = (a, b) => a.length === b.length && a.every((x, i) => x === b[i]);
const some = value => Object.freeze({ __option: 'Some', value });
const none = () => Object.freeze({ __option: 'None' });
const isOption = v => !!v && typeof v === 'object' && '__option' in v;
const isSome = o => o.__option === 'Some';
const isNone = o => o.__option === 'None';
const unwrapOption = (o, f = () => null) => (isSome(o) ? o.value : f());
const wrapNullable = v => (v !== null && v !== undefined ? some(v) : none());

// ---- program-derived addresses ----
const P = (1n << 255n) - 19n;
const mod = n => ((n % P) + P) % P;
function pow(b, e) {
    let r = 1n;
    for (b = mod(b); e > 0n; e >>= 1n) {
        if (e & 1n) r = (r * b) % P;
        b = (b * b) % P;
    }
    return r;
}
const D = mod(-121665n * pow(121666n, P - 2n));
function onCurve(bytes) {
    let y = 0n;
    for (let i = 31; i >= 0; i--) y = (y << 8n) | BigInt(i === 31 ? bytes[i] & 0x7f : bytes[i]);
    y = mod(y);
    const u = mod(y * y - 1n);
    const v = mod(D * y * y + 1n);
    // a root of u/v exists: u*v is a square
    const x2 = mod(u * pow(v, P - 2n));
    if (x2 === 0n) return (bytes[31] & 0x80) === 0;
    return pow(x2, (P - 1n) / 2n) === 1n;
}
async function getProgramDerivedAddress({ programAddress, seeds }) {
    const parts = seeds.map(s => (typeof s === 'string' ? utf8(s) : s));
    if (parts.length + 1 > 16) fail('ADDRESSES__MAX_NUMBER_OF_PDA_SEEDS_EXCEEDED');
    for (const s of parts) if (s.length > 32) fail('ADDRESSES__MAX_PDA_SEED_LENGTH_EXCEEDED');
    const prog = getAddressEncoder().encode(programAddress);
    for (let bump = 255; bump > 0; bump--) {
        const h = createHash('sha256');
        for (const s of parts) h.update(s);
        h.update(Uint8Array.of(bump)).update(prog).update('ProgramDerivedAddress');
        const d = h.digest();
        if (!onCurve(d)) return Object.freeze([b58encode(d), bump]);
    }
    fail('ADDRESSES__FAILED_TO_FIND_VIABLE_PDA_BUMP_SEED');
}

// ---- accounts ----
const AccountRole = { READONLY: 0, WRITABLE: 1, READONLY_SIGNER: 2, WRITABLE_SIGNER: 3, 0: 'READONLY', 1: 'WRITABLE', 2: 'READONLY_SIGNER', 3: 'WRITABLE_SIGNER' };
const upgradeRoleToSigner = r => r | 2;
const upgradeRoleToWritable = r => r | 1;
const downgradeRoleToNonSigner = r => r & 1;
const downgradeRoleToReadonly = r => r & 2;
const isSignerRole = r => r >= 2;
const isWritableRole = r => (r & 1) !== 0;
async function fetchEncodedAccount(rpc, a, config = {}) {
    const { abortSignal, ...c } = config;
    const { value } = await rpc.getAccountInfo(a, { ...c, encoding: 'base64' }).send({ abortSignal });
    return parseBase64RpcAccount(a, value);
}
function parseBase64RpcAccount(a, value) {
    if (!value) return Object.freeze({ address: a, exists: false });
    return Object.freeze({
        address: a,
        data: Uint8Array.from(Buffer.from(value.data[0], 'base64')),
        executable: value.executable,
        exists: true,
        lamports: value.lamports,
        programAddress: value.owner,
        space: value.space,
    });
}
async function fetchEncodedAccounts(rpc, as, config = {}) {
    const { abortSignal, ...c } = config;
    const { value } = await rpc.getMultipleAccounts(as, { ...c, encoding: 'base64' }).send({ abortSignal });
    return value.map((v, i) => parseBase64RpcAccount(as[i], v));
}
function decodeAccount(a, decoder) {
    try {
        if ('exists' in a && !a.exists) return a;
        return Object.freeze({ ...a, data: decoder.decode(a.data) });
    } catch {
        fail('ACCOUNTS__FAILED_TO_DECODE_ACCOUNT', { address: a.address });
    }
}
function assertAccountExists(a) {
    if (!a.exists) fail('ACCOUNTS__ACCOUNT_NOT_FOUND', { address: a.address });
}
function assertAccountsExist(as) {
    const missing = as.filter(a => !a.exists).map(a => a.address);
    if (missing.length) fail('ACCOUNTS__ONE_OR_MORE_ACCOUNTS_NOT_FOUND', { addresses: missing });
}
function assertAccountDecoded(a) {
    if (a.data instanceof Uint8Array) fail('ACCOUNTS__EXPECTED_DECODED_ACCOUNT', { address: a.address });
}

// ---- signers and messages ----
const isTransactionSigner = v =>
    !!v && typeof v === 'object' && typeof v.address === 'string' && ['signTransactions', 'modifyAndSignTransactions', 'signAndSendTransactions'].some(k => typeof v[k] === 'function');
const pipe = (init, ...fns) => fns.reduce((a, f) => f(a), init);
const createTransactionMessage = c => Object.freeze({ instructions: Object.freeze([]), version: c.version });
const setTransactionMessageFeePayer = (feePayer, m) => Object.freeze({ ...m, feePayer: Object.freeze({ address: feePayer }) });
const setTransactionMessageFeePayerSigner = (feePayer, m) => Object.freeze({ ...m, feePayer });
const setTransactionMessageLifetimeUsingBlockhash = (l, m) =>
    Object.freeze({ ...m, lifetimeConstraint: Object.freeze({ blockhash: l.blockhash, lastValidBlockHeight: l.lastValidBlockHeight }) });
const appendTransactionMessageInstructions = (ixs, m) => Object.freeze({ ...m, instructions: Object.freeze([...m.instructions, ...ixs]) });
const appendTransactionMessageInstruction = (ix, m) => appendTransactionMessageInstructions([ix], m);
const prependTransactionMessageInstructions = (ixs, m) => Object.freeze({ ...m, instructions: Object.freeze([...ixs, ...m.instructions]) });
const prependTransactionMessageInstruction = (ix, m) => prependTransactionMessageInstructions([ix], m);
function isInstructionWithAccounts(ix) {
    return ix.accounts !== undefined;
}
function assertIsInstructionWithAccounts(ix) {
    if (ix.accounts === undefined) fail('INSTRUCTION__EXPECTED_TO_HAVE_ACCOUNTS');
}
function assertIsInstructionWithData(ix) {
    if (ix.data === undefined) fail('INSTRUCTION__EXPECTED_TO_HAVE_DATA');
}
const isFullySignedTransaction = tx => Object.values(tx.signatures).every(s => !!s);
function assertIsFullySignedTransaction(tx) {
    const missing = Object.entries(tx.signatures).filter(([, s]) => !s).map(([a]) => a);
    if (missing.length) fail('TRANSACTION__SIGNATURES_MISSING', { addresses: missing });
}
function getTransactionSize(tx) {
    const n = Object.keys(tx.signatures).length;
    return (n < 128 ? 1 : 2) + 64 * n + tx.messageBytes.length;
}
function assertIsTransactionWithinSizeLimit(tx) {
    if (getTransactionSize(tx) > 1232) fail('TRANSACTION__EXCEEDS_SIZE_LIMIT');
}
function assertIsSendableTransaction(tx) {
    assertIsFullySignedTransaction(tx);
    assertIsTransactionWithinSizeLimit(tx);
}
const isSendableTransaction = tx => isFullySignedTransaction(tx) && getTransactionSize(tx) <= 1232;
let fresh = 0;
async function generateKeyPairSigner() {
    const h = createHash('sha256').update(`generated ${fresh++}`).digest();
    return signer(b58encode(h));
}
const signer = a => Object.freeze({ address: a, signMessages: async () => [], signTransactions: async () => [] });
function isProgramError(error, message, programAddress, code) {
    if (!isSolanaError(error, 'INSTRUCTION_ERROR__CUSTOM')) return false;
    if (message.instructions[error.context.index]?.programAddress !== programAddress) return false;
    return code === undefined || error.context.code === code;
}
const extendClient = (client, extra) => Object.freeze({ ...client, ...extra });

const ERRORS = new Proxy(
    {},
    { get: (_, k) => (typeof k === 'string' && k.startsWith('SOLANA_ERROR__') ? k.slice('SOLANA_ERROR__'.length) : undefined) },
);
module.exports = {
    ERRORS, SolanaError, isSolanaError, b58encode, b58decode, createEncoder, createDecoder, createCodec, isFixedSize, combineCodec,
    transformEncoder, transformDecoder, transformCodec: (c, f, g) => combineCodec(transformEncoder(c, f), g ? transformDecoder(c, g) : c),
    ...INTS, Endian, getTupleEncoder, getTupleDecoder, getTupleCodec, getConstantEncoder, getConstantDecoder, getConstantCodec,
    addEncoderSizePrefix, addDecoderSizePrefix, addCodecSizePrefix, getNullableEncoder, getNullableDecoder, getNullableCodec,
    getOptionEncoder, getOptionDecoder, getOptionCodec, assertIsAddress, getBooleanEncoder, getBooleanDecoder, getBooleanCodec, getBytesEncoder, getBytesDecoder,
    getBytesCodec, getUtf8Encoder, getUtf8Decoder, getUtf8Codec, getBase58Encoder, getBase58Decoder, getBase58Codec, getBase64Encoder,
    getBase64Decoder, isAddress, address, getAddressEncoder, getAddressDecoder, getAddressCodec, getStructEncoder,
    getStructDecoder, getStructCodec, fixEncoderSize, fixDecoderSize, containsBytes, bytesEqual, some, none, isOption, isSome, isNone,
    unwrapOption, wrapNullable, getProgramDerivedAddress, AccountRole, upgradeRoleToSigner, upgradeRoleToWritable, downgradeRoleToNonSigner,
    downgradeRoleToReadonly, isSignerRole, isWritableRole, fetchEncodedAccount, fetchEncodedAccounts, parseBase64RpcAccount, decodeAccount,
    assertAccountExists, assertAccountsExist, assertAccountDecoded, isTransactionSigner, pipe, createTransactionMessage,
    setTransactionMessageFeePayer, setTransactionMessageFeePayerSigner, setTransactionMessageLifetimeUsingBlockhash,
    appendTransactionMessageInstructions, appendTransactionMessageInstruction, prependTransactionMessageInstructions,
    prependTransactionMessageInstruction, isInstructionWithAccounts, assertIsInstructionWithAccounts, assertIsInstructionWithData,
    isFullySignedTransaction, assertIsFullySignedTransaction, getTransactionSize, assertIsTransactionWithinSizeLimit,
    assertIsSendableTransaction, isSendableTransaction, generateKeyPairSigner, signer, isProgramError, extendClient,
    lamports: n => n, blockhash: s => s, createNoopSigner: signer, getBlockhashEncoder: getAddressEncoder,
    isAddressEqual: (a, b) => a === b,
};
