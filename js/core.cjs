'use strict';
// @solana/program-client-core
const k = require('./base.cjs');
const expectAddress = v => (typeof v === 'string' ? v : Array.isArray(v) ? v[0] : v.address);
module.exports = require('./wide.cjs')('@solana/program-client-core', {
    getAccountMetaFactory: (programAddress, strategy) => (_name, account) => {
        if (!account.value) {
            if (strategy === 'omitted') return;
            return Object.freeze({ address: programAddress, role: k.AccountRole.READONLY });
        }
        const role = account.isWritable ? k.AccountRole.WRITABLE : k.AccountRole.READONLY;
        const signs = k.isTransactionSigner(account.value);
        return Object.freeze({
            address: expectAddress(account.value),
            role: signs ? k.upgradeRoleToSigner(role) : role,
            ...(signs ? { signer: account.value } : {}),
        });
    },
    getAddressFromResolvedInstructionAccount: (_n, v) => expectAddress(v),
    getNonNullResolvedInstructionInput: (_n, v) => v,
    addSelfFetchFunctions: (client, codec) => {
        const one = async (a, c) => k.decodeAccount(await k.fetchEncodedAccount(client.rpc, a, c), codec);
        const all = async (as, c) => (await k.fetchEncodedAccounts(client.rpc, as, c)).map(x => k.decodeAccount(x, codec));
        return Object.freeze({
            ...codec,
            fetchMaybe: one,
            fetch: async (a, c) => {
                const x = await one(a, c);
                k.assertAccountExists(x);
                return x;
            },
            fetchAllMaybe: all,
            fetchAll: async (as, c) => {
                const x = await all(as, c);
                k.assertAccountsExist(x);
                return x;
            },
        });
    },
    addSelfPlanAndSendFunctions: (client, ix) =>
        Object.freeze({
            ...ix,
            planTransaction: c => client.planTransaction(ix, c),
            planTransactions: c => client.planTransactions(ix, c),
            sendTransaction: c => client.sendTransaction(ix, c),
            sendTransactions: c => client.sendTransactions(ix, c),
        }),
});
