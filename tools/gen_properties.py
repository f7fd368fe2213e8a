#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as source so that edits stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": hook}})

PROC = "program/src/processor.rs"
p("C01", "Wrapped tokens are fully backed over every history",
  "For every unwrapped mint and wrapped token program, after any sequence of program instructions and ordinary token operations by anyone, the wrapped mint's supply never exceeds the balance of that pair's escrow. The two stay equal as long as nobody burns wrapped tokens outside the program or sends tokens to the escrow directly. Rejected instructions change neither.",
  ["histories", "inputs"],
  "All interleavings of create/wrap/unwrap/close-stuck/sync by several users on several pairs with token-program transfers, approvals, burns, donations, freezes, fee changes, fee withdrawals and epoch changes; mints without a permanent delegate (which can drain any account by design).",
  "Tests run one wrap or one unwrap on a prepared state with a handful of amounts; no test runs a history, and none compares supply with escrow.",
  [PROC], [("transfer to escrow, then mint net amount", PROC + ":process_wrap"), ("burn, then release the same amount", PROC + ":process_unwrap")],
  [("escrow", "ATA of the wrapped-mint authority PDA holding all deposits", PROC), ("wrapped supply", "claims on the escrow", "wrapped mint account")],
  ["token account and mint bytes after each transaction"])
p("C02", "A wrap debits the amount and mints exactly what the escrow received",
  "A successful wrap of N debits exactly N from the source account, credits the escrow with N minus the unwrapped mint's transfer fee in force in the current epoch, and mints exactly that credited amount to the recipient. A wrap of zero is refused. No other account's balance, lamports or data change.",
  ["inputs", "configurations"],
  "All u64 amounts, decimals, fee schedules (older/newer, boundary epochs, rates 0..=10000, caps), all four token-program directions, mint and account extensions, owner/delegate/multisig authorities.",
  "Tests use a few amounts, one fee schedule with one epoch, and check balances of two accounts.",
  [PROC], [("epoch fee computation and transfer_checked_with_fee", PROC + ":process_wrap"), ("mint_to of the net amount", PROC + ":process_wrap")],
  observe=["all accounts of the transaction, byte for byte, against the token programs executed directly"])
p("C03", "An unwrap burns the amount and releases exactly that amount",
  "A successful unwrap of N burns exactly N from the holder's wrapped account and from the wrapped supply, and takes exactly N out of that pair's escrow for the recipient, who receives N minus only the unwrapped mint's own transfer fee. An unwrap of zero is refused. No other account's balance, lamports or data change.",
  ["inputs", "configurations"],
  "All u64 amounts up to and beyond the balance, fee schedules and epochs, all four token-program directions, mint and account extensions, owner/delegate/multisig authorities.",
  "Tests use a few amounts on fabricated accounts and compare two or three balances.",
  [PROC], [("burn signed by the holder", PROC + ":process_unwrap"), ("transfer_checked signed by the authority PDA", PROC + ":process_unwrap")],
  observe=["all accounts of the transaction, byte for byte, against the token programs executed directly"])
p("C04", "Valid wraps and unwraps are never refused",
  "With the right accounts, a wrap of a positive amount succeeds whenever the token programs themselves would accept that holder's transfer into the escrow and the mint to the recipient. An unwrap of a positive amount succeeds whenever they would accept the holder's burn and the release from the escrow. In particular a holder can always redeem everything they wrapped, in any split and order, while nothing is frozen or paused.",
  ["histories", "inputs", "configurations"],
  "All holders, amounts, splits and orders of redemption, epochs, fee schedules, extension sets, and authority kinds.",
  "Tests show single successes; refusal at an untested amount, extension or order of operations would strand funds unnoticed.",
  [PROC], [("wrap acceptance path", PROC + ":process_wrap"), ("unwrap acceptance path", PROC + ":process_unwrap")],
  observe=["transaction result compared with the token programs executed directly"])
p("C05", "Only the tokens' authority can wrap or unwrap them",
  "A wrap or unwrap moves tokens out of an account only if the account's owner, a delegate with enough allowance, or enough distinct signers of the owning multisig signed the transaction. A missing, wrong, duplicated or insufficient signature, or an exceeded allowance, always leads to rejection. Those authorities suffice, whatever further accounts are listed. A delegate's remaining allowance falls by exactly the amount used.",
  ["inputs", "configurations"],
  "All authority kinds (owner, delegate, stranger, multisig m-of-n for 1<=m<=n<=11), all subsets and orders of signing members, extra non-member signers, allowances below/at/above the amount, either token program.",
  "Tests exercise one 2-of-3 multisig and one missing-signer case per instruction.",
  [PROC, "program/src/instruction.rs"],
  [("authority and signers passed to the token program CPI", PROC + ":process_wrap"), ("multisig signer extraction for burn", PROC + ":process_unwrap")],
  observe=["transaction result and token account bytes"])
p("C06", "Substituted accounts are always rejected",
  "Replacing any account of a valid program instruction by any other account that does not play that role is rejected, or has no effect on any balance, mint, pointer or metadata that the genuine instruction would not have had. This covers wrapped mint, authority, escrow, mints, token programs, backpointer, pointer and metadata accounts, including look-alikes created by an attacker. The documented error code for the mismatched account is returned when only that account is wrong.",
  ["inputs", "configurations"],
  "For every instruction and every account position: other pairs' accounts, attacker-owned look-alikes, other programs, swaps of two positions, the same account twice, missing trailing accounts.",
  "Tests cover about a dozen single substitutions, each with one replacement.",
  [PROC, "program/src/error.rs", "program/src/metadata.rs"],
  [("PDA and ATA derivation checks", PROC), ("owner checks", PROC)],
  observe=["transaction result, custom error code, full account diff"])
p("C07", "A created wrapped mint is faithful to its unwrapped mint",
  "Creating a wrapped mint for any initialized SPL Token or Token-2022 mint yields, at the address derived from that mint and the wrapped token program, a mint with the same decimals and freeze authority, zero supply, and a mint authority that is the pair's program-controlled address. A Token-2022 wrapped mint additionally has confidential transfers with automatic approval, no authority and no auditor, and a metadata pointer to itself controlled by the same program address, and no other extension. The backpointer account then holds the unwrapped mint's address.",
  ["inputs", "configurations"],
  "All unwrapped mints (decimals 0..=255, any freeze/mint authority, supply, any extension subset, either program), both wrapped programs, any pre-funding at or above the rent minimum.",
  "Tests create mints from two or three fixed shapes and read selected fields.",
  [PROC, "program/src/mint_customizer/default_token_2022.rs", "program/src/state.rs"],
  [("customizer extension initialisation", "program/src/mint_customizer/default_token_2022.rs"), ("mint and backpointer initialisation", PROC + ":process_create_mint")],
  [("backpointer", "wrapped mint -> unwrapped mint", "program/src/state.rs")],
  ["wrapped mint and backpointer bytes, owners and lamports"])
p("C08", "Mint creation happens once and never overwrites",
  "After a wrapped mint exists, creating it again changes nothing whatever happened in between: it fails without the idempotent flag and succeeds as a no-op with it. Creation fails for accounts that are not initialized mints of a token program, for wrong addresses, for unsupported wrapped token programs, and when the mint or backpointer account is funded below its rent minimum. It never takes more than what was pre-funded and needs nobody's signature.",
  ["histories", "inputs", "configurations"],
  "All funding levels around the two rent minimums, repeated creation at any point of a history (after wraps, burns, syncs), every non-mint source account shape, every wrapped-program id.",
  "Tests try one funding level below the minimum and one repetition on untouched accounts.",
  [PROC], [("already-initialised and owner checks", PROC + ":process_create_mint"), ("rent checks", PROC + ":process_create_mint")],
  observe=["transaction result and all account bytes"])
p("C09", "Only an empty, mismatched escrow can be closed, and it recovers",
  "Closing a stuck escrow succeeds exactly for the genuine Token-2022 escrow of a pair that is initialized, holds a zero balance, whose extensions differ from those the current unwrapped mint requires, and that Token-2022 lets be closed (it withholds no fees); all its lamports go to the given destination and nothing else changes. In every other state it is refused and changes nothing. After closing, the escrow can be recreated and wrapping and unwrapping work again.",
  ["histories", "configurations", "inputs"],
  "All pairs of old/new extension sets for a mint closed and recreated at the same address, balances, frozen states, withheld fees, destinations, both wrapped programs.",
  "Tests cover a few fixed extension combinations; the space of old/new extension sets is not sampled.",
  [PROC], [("good-state comparison", PROC + ":process_close_stuck_escrow"), ("zero-balance and state checks", PROC + ":process_close_stuck_escrow")],
  observe=["transaction result, lamports, recreated escrow, later wraps"])
p("C10", "Metadata sync to Token-2022 mirrors the source exactly",
  "After a successful sync to a Token-2022 wrapped mint, its name, symbol, URI and set of additional fields equal those of the unwrapped mint's current metadata: missing fields are added, changed ones updated, stale ones removed, whatever was there before. The metadata's update authority is the program address and its mint is the wrapped mint; everything else on the mint is untouched, and anyone may sync. Syncing again without a source change changes nothing.",
  ["histories", "inputs"],
  "All source metadata values (any UTF-8 strings, any number of fields, Metaplex optional parts), any earlier synced state, any sequence of source edits and syncs, all three source kinds.",
  "Tests sync two or three fixed metadata values once or twice; no history of edits, no generated strings or field sets.",
  [PROC, "program/src/metadata.rs", "program/src/metaplex.rs"],
  [("field diffing, stale key removal", PROC + ":process_sync_metadata_to_token_2022"), ("initialisation", PROC + ":process_sync_metadata_to_token_2022")],
  observe=["TokenMetadata extension of the wrapped mint and all other bytes"])
p("C11", "Metadata sync to SPL Token mirrors the source into Metaplex",
  "After a successful sync to an SPL Token wrapped mint, its Metaplex record carries the source's name, symbol, URI, seller fee, creators, collection and uses, created or updated as needed whatever was there before. The program vouches for nobody: a creator or collection is recorded as unverified, however the source has it, unless that creator or collection authority verified the wrapped mint's own record. The record's update authority is the program address, it stays mutable, and the wrapped mint is untouched. Malformed source values are refused without effect, and every well-formed source whose values Metaplex itself would accept from that authority can be synced.",
  ["histories", "inputs"],
  "All source metadata (Metaplex or Token-2022 with well-formed, malformed, missing or duplicated special fields), any earlier state of the record, any sequence of edits and syncs.",
  "Tests sync a few fixed values; optional parts, malformed values and repeated edits are hardly sampled.",
  [PROC, "program/src/metaplex.rs", "program/src/metadata.rs"],
  [("create or update decision", PROC + ":process_sync_metadata_to_spl_token"), ("conversion to DataV2", "program/src/metaplex.rs:token_2022_metadata_to_metaplex")],
  observe=["Metaplex metadata account, wrapped mint, payer lamports"])
p("C12", "Synced metadata comes only from the mint's authentic source",
  "A sync takes metadata only from where the unwrapped mint designates it: the mint itself if its metadata pointer says so, the pointed-to Metaplex record or external program's account otherwise, and the mint's own Metaplex address when it has no pointer or is an SPL Token mint. Any other supplied account, an unset pointer, a wrong or silent external program, or a pointer to another Token-2022 account is refused. Extra or look-alike accounts never change what is written.",
  ["inputs", "configurations"],
  "All combinations of unwrapped program, pointer state, supplied source account (genuine, other mint's, look-alike owner/address), supplied owner program, return data of the external program.",
  "Tests check single instances of each mismatch.",
  ["program/src/metadata.rs", PROC], [("source resolution", "program/src/metadata.rs:resolve_token_2022_source_metadata"), ("Metaplex PDA and owner check", "program/src/metadata.rs:read_metaplex_for_mint"), ("return-data program check", "program/src/metadata.rs:cpi_emit_and_decode")],
  observe=["transaction result and written metadata"])
p("C13", "Metadata conversions are faithful, total and round-trip",
  "Converting a Metaplex record to Token-2022 form keeps name, symbol, URI and update authority, and represents every set Metaplex attribute as an additional field and no unset one, with creators marked unverified. Converting Token-2022 metadata to Metaplex form reads seller fee, creators, collection and uses from those fields, marks creators and collection unverified, ignores other fields, and fails cleanly on malformed values. Going there and back loses nothing Metaplex's data record can hold except creator and collection verification.",
  ["inputs"],
  "All Metaplex records (every optional part and enum value) and all additional-field lists, including malformed JSON, duplicates, out-of-range numbers, arbitrary bytes as records.",
  "Tests convert one full and one minimal record.",
  ["program/src/metaplex.rs"], [("extract_additional_metadata", "program/src/metaplex.rs"), ("token_2022_metadata_to_metaplex", "program/src/metaplex.rs")],
  observe=["return values of the public conversion functions"])
p("C14", "The canonical pointer is set only by the mint's current authority",
  "The canonical pointer of an unwrapped mint can be created or changed only in a transaction signed by the mint's current mint authority, and then holds exactly the program id given last, at the mint's pointer address. Mints without a mint authority, non-mints, wrong pointer addresses and an underfunded new pointer are refused. Nothing else changes, and pointers of other mints are unaffected.",
  ["histories", "inputs"],
  "All histories of pointer updates, authority transfers and revocations across several mints of both programs; all signers; all funding levels.",
  "Tests cover one create, one update and single failures; no history with authority changes.",
  [PROC], [("authority and signature check", PROC + ":process_set_canonical_pointer")],
  [("canonical pointer", "program id of the canonical deployment", "program/src/state.rs")],
  ["pointer account bytes, transaction result"])
p("C15", "Instruction encoding is exact, strict and unambiguous",
  "Every instruction value encodes to its documented bytes (one tag byte, little-endian amounts, one 0/1 flag byte, a 32-byte program id) and decodes back to itself. Any byte string that is not such an encoding is refused with an invalid-instruction-data error, on chain as well as in the library, and never causes a panic. No two values share an encoding.",
  ["inputs"], "All instruction values and all byte strings (mutations, truncations, extensions, every tag, every flag byte).",
  "Tests round-trip a couple of values and reject a few strings.",
  ["program/src/instruction.rs", "program/src/entrypoint.rs"], [("pack / unpack", "program/src/instruction.rs")],
  observe=["pack/unpack results, on-chain error for arbitrary instruction data"])
p("C16", "Addresses are derived exactly as documented",
  "Wrapped mint, mint authority, backpointer, canonical pointer and escrow addresses equal the program-derived addresses of the documented seeds for every mint, token program and deployment, and are off-curve. The per-deployment variants agree with the default ones for the default program id and differ for every other. Distinct inputs never share an address.",
  ["inputs"], "All mint, token-program and program-id keys.",
  "Tests call the functions but compare them only with themselves.",
  ["program/src/lib.rs"], [("find_program_address wrappers", "program/src/lib.rs")],
  observe=["public derivation functions against an independent SHA-256/ed25519 reference"])
p("C17", "Instruction builders produce exactly what the program expects",
  "Each library builder yields the given program id, the documented account order with the documented writable and signer flags, and the exact data, for every argument; only the transfer authority of a single-signer wrap or unwrap, the listed multisig members and the pointer's mint authority are signers. Transactions built this way from derived addresses are accepted by the program with no privileges beyond those flags.",
  ["inputs"], "All argument keys, amounts, 0..=11 multisig signers, optional metadata accounts present or absent.",
  "Tests never check the flags or order of builders for generated arguments.",
  ["program/src/instruction.rs"], [("create_mint, wrap, unwrap, close_stuck_escrow, sync_*, set_canonical_pointer", "program/src/instruction.rs")],
  observe=["Instruction values; execution by the built program"])
p("C18", "No sequence of hostile instructions creates or steals value",
  "Whatever accounts, order, flags, data and signatures an attacker puts into program instructions, no tokens leave another user's account or an escrow without the matching burn, no wrapped tokens appear without the matching deposit, and total tokens and lamports are conserved. Accounts of other programs and users that did not sign keep owner, authority and data. No instruction ends in a program panic or memory fault where inputs are valid accounts.",
  ["histories", "inputs"],
  "Histories of instructions with arbitrary account lists drawn from a populated world (pairs, look-alikes, other users, sysvars, programs), arbitrary flags, data and signer sets excluding the victims' keys.",
  "Tests never combine arbitrary accounts; each negative test changes one account.",
  [PROC], [("all address, owner and signer checks", PROC)],
  observe=["global token and lamport sums, victims' accounts, after every transaction"])
p("C19", "Pairs are isolated, including nested wraps and both programs",
  "An operation on one (unwrapped mint, wrapped program) pair never changes the escrow, supply, metadata, backpointer or pointer of any other pair, including the other wrapped program's pair for the same mint and pairs whose unwrapped mint is itself a wrapped mint. Tokens of one pair can only be redeemed from that pair's escrow. Unwinding a chain of nested wraps returns the original tokens in full.",
  ["histories", "configurations"],
  "All histories over several mints, both wrapped programs per mint and nesting depths up to three.",
  "Tests set up a single pair at a time.",
  [PROC, "program/src/lib.rs"], [("per-pair PDA derivation", "program/src/lib.rs"), ("escrow ATA derivation", PROC)],
  observe=["all pairs' accounts after every transaction"])
p("C20", "Transfer hooks run on every wrap and unwrap",
  "For an unwrapped Token-2022 mint with a transfer hook, each successful wrap and each successful unwrap (to an account other than the escrow itself) invokes the hook exactly once with the mint's configured program, for single and multisig authorities alike and with any number of extra hook accounts. If the hook program or its accounts are missing or the hook refuses, the whole instruction is refused. Hook accounts never gain privileges and never count as token signers.",
  ["inputs", "histories", "configurations"],
  "All amounts, authority kinds, combinations of hook with fees, orders and subsets of the extra accounts, both wrapped programs, histories of wraps and unwraps.",
  "Tests run one hooked wrap and one hooked unwrap with a single signer.",
  [PROC], [("additional accounts forwarded to the transfer", PROC + ":process_wrap"), ("additional accounts split for burn and transfer", PROC + ":process_unwrap")],
  observe=["hook counter account, balances, transaction result"])
p("C21", "The shipped mint customizers configure mints as documented",
  "A deployment built with the compliance customizer creates Token-2022 wrapped mints with exactly a permanent delegate, confidential transfers with the named authority, auditor and automatic approval, default account state initialized, pausability and the named freeze authority; one built with the no-extension customizer creates mints with no extensions. Both copy decimals, the latter also the freeze authority, for every unwrapped mint. SPL Token wrapped mints are created correctly by both, and wrapping and unwrapping work on the mints they create.",
  ["inputs", "configurations"],
  "All unwrapped mints, both wrapped programs, both alternative customizers, wraps and unwraps through them.",
  "The compliance customizer's only end-to-end test is ignored by default; the other has none.",
  ["program/src/mint_customizer/compliance.rs", "program/src/mint_customizer/no_extensions.rs", PROC],
  [("MintCustomizer implementations", "program/src/mint_customizer")],
  observe=["wrapped mint bytes created by fork programs built from the repository"])
p("C22", "Error codes and messages are stable and unambiguous",
  "Each program error has a fixed number, 0 to 15 in documented order; converting an error to its code and back gives the same error, unknown codes are refused, and each has its own log text and message. The IDL and generated clients name the same codes. A failing transaction logs the text of the error it returns.",
  ["inputs"], "All error values, all u32 codes, all failing transactions generated by the other properties' generators.",
  "Tests compare codes only where a test happens to produce them, using the enum itself on both sides.",
  ["program/src/error.rs", "program/src/entrypoint.rs", "idl.json", "clients/js/src/generated/errors/tokenWrap.ts"],
  [("TokenWrapError", "program/src/error.rs"), ("log_error", "program/src/entrypoint.rs")],
  observe=["conversion functions, transaction logs, IDL"])
CLI = "clients/cli/src/"
p("C23", "The command-line tool's setup commands do what their arguments say",
  "find-pdas, create-mint, create-escrow-account, close-stuck-escrow and both sync commands submit exactly the one transaction their arguments and the chain's state call for: the documented instruction with the derived addresses, topped up by exactly what is missing, paid by the chosen fee payer, or nothing where nothing is needed. Success is reported exactly when the chain carried it out (or, in a dry run, accepts it), and the printed addresses, amounts and signatures are the real ones in every output format. A failed request, a refusing chain, a missing or wrong mint is reported as failure and never as success.",
  ["inputs", "fault_sequences", "configurations"],
  "All mints and prior account states, both wrapped programs, all output formats, fee payers, configuration sources, dry runs, failing requests and transactions that fail after being accepted.",
  "The tool's tests run each command a few times against a validator that never fails.",
  [CLI + "create_mint.rs", CLI + "create_escrow_account.rs", CLI + "close_stuck_escrow.rs", CLI + "find_pdas.rs", CLI + "sync_metadata_to_token2022.rs", CLI + "sync_metadata_to_spl_token.rs", CLI + "common.rs", CLI + "config.rs"],
  [("command_create_mint and the other command functions", CLI + "create_mint.rs"), ("process_transaction", CLI + "common.rs")],
  observe=["exit status, standard output, transactions received by the node, chain state"])
p("C24", "The command-line tool wraps and unwraps exactly what it is told",
  "wrap and unwrap move exactly the stated amount between the stated accounts under the stated authority (own key, another key, a delegate, a multisig with any sufficient set of members) whether or not the optional addresses are given, and the printed addresses, amount and signatures are those of the transaction that landed. Optional addresses that contradict the accounts, missing accounts, missing signatures, failing requests and refused transactions end in failure with nothing moved. A dry run sends nothing and succeeds exactly when the chain accepts the transaction.",
  ["inputs", "fault_sequences", "configurations"],
  "All amounts, mints, authorities and signer sets, every combination of omitted, right and wrong optional arguments, output formats, fee payers, failing requests.",
  "The tool's tests wrap and unwrap once per authority kind with right arguments.",
  [CLI + "wrap.rs", CLI + "unwrap.rs", CLI + "common.rs", CLI + "config.rs"],
  [("command_wrap", CLI + "wrap.rs"), ("command_unwrap, resolve_addresses", CLI + "unwrap.rs")],
  observe=["exit status, standard output, transactions received by the node, chain state"])
p("C25", "Signatures made apart assemble into the one transaction all signed",
  "With --sign-only the tool sends nothing and prints a message that is exactly the requested wrap or unwrap with the given fee payer and blockhash, the valid signatures of the keys it was given and the addresses still missing; where the command line says everything, wrap does this without a node. All parties given the same arguments sign the same bytes, so their signatures passed as --signer assemble into one transaction that lands with the requested effect. A lost, damaged or foreign signature, or one for another amount or blockhash, never lands.",
  ["inputs", "fault_sequences", "configurations"],
  "All wraps and unwraps, subsets of signers (fee payer included) signing apart, orders and chaining of the signatures, tampered signatures, stale blockhashes, output formats.",
  "The tool's tests assemble one two-of-three multisig wrap and one unwrap.",
  [CLI + "wrap.rs", CLI + "unwrap.rs", CLI + "common.rs", CLI + "config.rs"],
  [("sign-only and presigners", CLI + "wrap.rs:command_wrap"), ("sign-only and presigners", CLI + "unwrap.rs:command_unwrap"), ("parse_presigner", CLI + "common.rs")],
  observe=["printed message and signatures, transactions received by the node, chain state"])
JS = "clients/js/src/"
p("C26", "The JavaScript client and the IDL speak the program's language",
  "Every instruction the generated JavaScript client builds, and every instruction a client generated from the IDL (the published file and its source) would build, is for all arguments the very instruction the program documents: program, discriminator, argument bytes, accounts in order with their signer and writable flags, defaults for omitted accounts, and further signers appended. Parsing gives back what was built and refuses what is too short or of another kind; identification goes by the first byte. Derived addresses are the program's own for every program id; backpointer accounts decode to the mint they hold; error codes and messages are the program's. Amounts that are no unsigned 64-bit number are refused, never truncated.",
  ["inputs"],
  "All addresses, amounts (number, bigint, out of range), flags, omitted optional accounts, extra signers, program ids, truncated and extended data, account contents and error codes.",
  "The client's tests need a validator and use one argument set; the generated code has no tests and nothing ties it or the IDL to the program's Rust source.",
  ["program/idl.ts", "idl.json", JS + "generated/instructions/wrap.ts", JS + "generated/instructions/unwrap.ts", JS + "generated/instructions/createMint.ts", JS + "generated/instructions/closeStuckEscrow.ts", JS + "generated/instructions/syncMetadataToToken2022.ts", JS + "generated/instructions/syncMetadataToSplToken.ts", JS + "generated/pdas/wrappedMint.ts", JS + "generated/accounts/backpointer.ts", JS + "generated/programs/tokenWrap.ts", JS + "generated/errors/tokenWrap.ts"],
  [("getWrapInstruction and its siblings", JS + "generated/instructions/wrap.ts"), ("identifyTokenWrapInstruction, parseTokenWrapInstruction", JS + "generated/programs/tokenWrap.ts"), ("root node", "program/idl.ts")],
  observe=["instructions, addresses, decoded accounts and errors the client's exported functions give"])
p("C27", "The JavaScript helpers build what the chain's state calls for",
  "createMint, createEscrowAccount, singleSignerWrap and singleSignerUnwrap return exactly the instructions that carry out the request on the chain as it is: derived and looked-up addresses, exactly the missing lamports, the given or default authority with its signer attached, and nothing where nothing is needed; what they report equals what they built, and the chain accepts creations and moves that are valid. A missing account that has to be looked up, or a failing request, throws and never yields a guess. The multisig helpers put exactly that instruction into a version 0 message with the given fee payer and lifetime; combinedMultisigTx joins partially signed copies of one message into the fully signed transaction, in the message's signer order, and throws if messages differ, a signature is missing, nothing is given or the result is too large. Sync instructions with omitted optional accounts do on chain what the program's own builder does.",
  ["inputs", "configurations", "fault_sequences"],
  "All mints, token programs, prior account states and balances, authorities, present and omitted arguments, missing accounts and failing requests; sets of signers, orders and subsets of signatures, differing messages, sizes.",
  "The client's tests run each helper once against a validator prepared for it; combining is tested on one pair of transactions.",
  [JS + "create-mint.ts", JS + "wrap.ts", JS + "unwrap.ts", JS + "utilities.ts"],
  [("singleSignerWrap, multisigOfflineSignWrap", JS + "wrap.ts"), ("singleSignerUnwrap", JS + "unwrap.ts"), ("createEscrowAccount, combinedMultisigTx", JS + "utilities.ts"), ("createMint", JS + "create-mint.ts")],
  observe=["instructions and messages returned, executed against the built program"])
p("C28", "Called by another program, every instruction does what it does when sent",
  "Each instruction has the same outcome, whether a transaction contains it or another program calls it (with program-derived addresses as holders, authorities and payers, for which the caller signs): it is accepted in the same cases and leaves every account the same, and is otherwise refused and leaves everything as it was. A list of instructions carried out by one caller in one go amounts to the same instructions carried out one after the other, all of them or none. Nor does it matter whether an address that signs is a wallet or belongs to a program that keeps data there.",
  ["inputs", "histories", "configurations"],
  "All instructions, genuine and altered; all mint kinds, including transfer hooks; holders and authorities that are program addresses, lists of several instructions over the same and different pairs.",
  "The tests send every instruction at top level, one per transaction, by keys that are wallets.",
  [PROC],
  [("process_instruction and all handlers", PROC)],
  observe=["instruction results and all accounts, called and direct"])
for e in P: assert len(e["title"]) <= 80, e["id"]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for e in P: f.write(json.dumps(e) + "\n")
