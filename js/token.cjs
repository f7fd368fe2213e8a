'use strict';
// @solana-program/token, token-2022 and system: what the client uses of them
const k = require('./base.cjs');
const SYSTEM_PROGRAM_ADDRESS = '11111111111111111111111111111111';
const TOKEN_PROGRAM_ADDRESS = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
const TOKEN_2022_PROGRAM_ADDRESS = 'TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb';
const ASSOCIATED_TOKEN_PROGRAM_ADDRESS = 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL';
const meta = (v, role) => {
    const s = k.isTransactionSigner(v);
    return s ? { address: v.address, role: role | 2, signer: v } : { address: v, role };
};
const le = (n, size) => {
    const b = [];
    for (let x = BigInt(n), i = 0; i < size; i++, x >>= 8n) b.push(Number(x & 255n));
    return b;
};
const ix = (programAddress, accounts, data) => Object.freeze({ programAddress, accounts, data: Uint8Array.from(data) });

// bytes an extension takes, type and length included
const EXTENSION = {
    TransferFeeConfig: 108, MintCloseAuthority: 32, ConfidentialTransferMint: 65, DefaultAccountState: 1, NonTransferable: 0,
    InterestBearingConfig: 52, PermanentDelegate: 32, TransferHook: 64, ConfidentialTransferFee: 129, MetadataPointer: 64,
    GroupPointer: 64, GroupMemberPointer: 64, TokenGroup: 80, TokenGroupMember: 72, ScaledUiAmountConfig: 56, PausableConfig: 33,
    ConfidentialMintBurn: 196,
};
function getMintSize(extensions) {
    if (extensions == null || extensions.length === 0) return 82;
    let n = 166;
    for (const e of extensions) {
        if (!(e.__kind in EXTENSION)) throw new Error(`unknown extension ${e.__kind}`);
        n += 4 + EXTENSION[e.__kind];
    }
    return n === 355 ? n + 2 : n;
}
function getTokenDecoder() {
    const key = k.getAddressDecoder();
    const u64 = k.getU64Decoder();
    const opt = (bytes, o) => (bytes[o] === 1 ? k.some(key.decode(bytes, o + 4)) : k.none());
    return k.createDecoder({
        read: (bytes, o) => {
            if (bytes.length - o < 165) throw new k.SolanaError('CODECS__INVALID_BYTE_LENGTH', { bytesLength: bytes.length - o, expected: 165 });
            return [
                {
                    mint: key.decode(bytes, o),
                    owner: key.decode(bytes, o + 32),
                    amount: u64.decode(bytes, o + 64),
                    delegate: opt(bytes, o + 72),
                    state: bytes[o + 108],
                    isNative: bytes[o + 109] === 1 ? k.some(u64.decode(bytes, o + 113)) : k.none(),
                    delegatedAmount: u64.decode(bytes, o + 121),
                    closeAuthority: opt(bytes, o + 129),
                    extensions: bytes.length - o > 166 ? k.some([]) : k.none(),
                },
                bytes.length,
            ];
        },
    });
}
function getMintDecoder() {
    const key = k.getAddressDecoder();
    const opt = (bytes, o) => (bytes[o] === 1 ? k.some(key.decode(bytes, o + 4)) : k.none());
    return k.createDecoder({
        read: (bytes, o) => {
            if (bytes.length - o < 82) throw new k.SolanaError('CODECS__INVALID_BYTE_LENGTH', { bytesLength: bytes.length - o, expected: 82 });
            return [
                {
                    mintAuthority: opt(bytes, o),
                    supply: k.getU64Decoder().decode(bytes, o + 36),
                    decimals: bytes[o + 44],
                    isInitialized: bytes[o + 45] === 1,
                    freezeAuthority: opt(bytes, o + 46),
                    extensions: bytes.length - o > 166 ? k.some([]) : k.none(),
                },
                bytes.length,
            ];
        },
    });
}
const decodeMint = a => k.decodeAccount(a, getMintDecoder());
const fetchMaybeMint = async (rpc, a, c) => decodeMint(await k.fetchEncodedAccount(rpc, a, c));
const fetchMint = async (rpc, a, c) => {
    const x = await fetchMaybeMint(rpc, a, c);
    k.assertAccountExists(x);
    return x;
};
const decodeToken = a => k.decodeAccount(a, getTokenDecoder());
const fetchMaybeToken = async (rpc, a, c) => decodeToken(await k.fetchEncodedAccount(rpc, a, c));
const fetchToken = async (rpc, a, c) => {
    const x = await fetchMaybeToken(rpc, a, c);
    k.assertAccountExists(x);
    return x;
};
const findAssociatedTokenPda = ({ owner, tokenProgram, mint }, config = {}) => {
    const a = k.getAddressEncoder();
    return k.getProgramDerivedAddress({
        programAddress: config.programAddress ?? ASSOCIATED_TOKEN_PROGRAM_ADDRESS,
        seeds: [a.encode(owner), a.encode(tokenProgram), a.encode(mint)],
    });
};
const associated = tag => (i, c = {}) =>
    ix(
        c.programAddress ?? ASSOCIATED_TOKEN_PROGRAM_ADDRESS,
        [meta(i.payer, 1), meta(i.ata, 1), meta(i.owner, 0), meta(i.mint, 0), meta(i.systemProgram ?? SYSTEM_PROGRAM_ADDRESS, 0), meta(i.tokenProgram ?? TOKEN_2022_PROGRAM_ADDRESS, 0)],
        [tag],
    );
const associatedAsync = f => async (i, c) =>
    f({ ...i, ata: i.ata ?? (await findAssociatedTokenPda({ owner: i.owner, mint: i.mint, tokenProgram: i.tokenProgram ?? TOKEN_2022_PROGRAM_ADDRESS }))[0] }, c);
const initialize = programAddress => (i, c = {}) =>
    ix(c.programAddress ?? programAddress, [meta(i.account, 1), meta(i.mint, 0), meta(i.owner, 0), meta(i.rent ?? 'SysvarRent111111111111111111111111111111111', 0)], [1]);
const common = {
    getMintDecoder, decodeMint, fetchMaybeMint, fetchMint, getMintSize, getTokenSize: () => 165, getTokenDecoder, decodeToken, fetchMaybeToken, fetchToken, findAssociatedTokenPda, ASSOCIATED_TOKEN_PROGRAM_ADDRESS,
    extension: (kind, data) => ({ __kind: kind, ...(data ?? {}) }),
    getCreateAssociatedTokenInstruction: associated(0),
    getCreateAssociatedTokenIdempotentInstruction: associated(1),
    getCreateAssociatedTokenInstructionAsync: associatedAsync(associated(0)),
    getCreateAssociatedTokenIdempotentInstructionAsync: associatedAsync(associated(1)),
};
exports.token = { ...common, TOKEN_PROGRAM_ADDRESS, getInitializeAccountInstruction: initialize(TOKEN_PROGRAM_ADDRESS) };
exports.token2022 = { ...common, TOKEN_2022_PROGRAM_ADDRESS, getInitializeAccountInstruction: initialize(TOKEN_2022_PROGRAM_ADDRESS) };
exports.system = {
    SYSTEM_PROGRAM_ADDRESS,
    getTransferSolInstruction: (i, c = {}) => ix(c.programAddress ?? SYSTEM_PROGRAM_ADDRESS, [meta(i.source, 1), meta(i.destination, 1)], [...le(2, 4), ...le(i.amount, 8)]),
    getCreateAccountInstruction: (i, c = {}) =>
        ix(c.programAddress ?? SYSTEM_PROGRAM_ADDRESS, [meta(i.payer, 1), meta(i.newAccount, 1)], [...le(0, 4), ...le(i.lamports, 8), ...le(i.space, 8), ...k.b58decode(i.programAddress)]),
};
