C.update({
 "C06": ("single and multiple substitutions, swaps, omissions and flag changes in genuine instructions over a populated world; oracle: refused with nothing changed, or every account still plays its role", "Generated account substitutions against an independent statement of each position's role."),
 "C07": ("generated unwrapped mints and prior account states; oracle: a byte-level model of the wrapped mint and the backpointer", "Every created mint is compared with a model written from the documentation."),
 "C08": ("stateful generation of repeated, idempotent and pre-seeded creations; oracle: byte-identical accounts after the first success", "Histories of creations over hostile prior states."),
 "C09": ("stateful generation of mint re-creations, escrow states and close attempts; reference model of when closing is allowed and what it pays", "Histories with mints closed and re-created with other extensions."),
 "C10": ("stateful generation of metadata edits, pointer moves and syncs; reference model of the resulting Token-2022 metadata", "Histories of source edits and syncs, read back by an independent TLV and Borsh reader."),
 "C11": ("stateful generation of metadata edits, verifications and syncs against the real Metaplex program; reference model of the resulting record", "Histories of source edits and syncs, read back by an independent record reader."),
 "C12": ("generated source designations, supplied accounts, owner programs and external answers; reference model of the authentic source", "The supplied accounts are generated independently of what the mint designates."),
 "C13": ("generated and mutated records and field lists through the public conversions; reference model, round trip and independent readers", "Pure functions, hundreds of thousands of inputs."),
 "C14": ("stateful generation of pointer updates, authority changes and funding; reference model of every pointer", "Histories over several mints of both token programs."),
 "C15": ("generated values and mutated byte strings; round trip against the documented grammar, in the library and in the VM", "Every string is also sent to the built program."),
 "C16": ("generated keys; differential against an independent SHA-256 and curve derivation", "Public derivation functions against a second implementation."),
 "C17": ("generated arguments; documented account lists as reference, and execution of built instructions in the VM", "Every built instruction is compared account by account and executed."),
 "C18": ("stateful generation of hostile instruction histories over a populated world; conservation and ownership invariants after every instruction", "Arbitrary account lists, flags, data and signer sets without the victims' signatures."),
 "C21": ("generated unwrapped mints against fork programs built with each shipped customizer; byte-level model of the wrapped mint", "Fork programs are rebuilt from the repository's customizers."),
 "C22": ("generated codes and failing transactions; documented table, published IDL and client, transaction logs as oracle", "All codes sampled, staged worlds for every error the program returns."),
 "C23": ("generated command lines, prior chain states and faults; the real tool runs against a node stand-in that decodes, verifies and executes what it submits; reference model of the transaction and effect", "The tool's binary is rebuilt from the repository and run once per case."),
 "C24": ("generated wraps and unwraps with all authority kinds, optional arguments and faults; the real tool runs against a node stand-in; reference model of transaction, effect and output", "The tool's binary is rebuilt from the repository and run once per case."),
 "C25": ("generated splits of the signers over separate sign-only runs, chaining and tampering; oracle: signature verification, byte-equal messages, model of the effect", "Each signing party is a run of its own of the real tool; the last run submits."),
 "C26": ("generated arguments, byte strings and accounts through the client's TypeScript; differential against documented account lists and an interpreter of the IDL", "The client's and the IDL's own sources are bundled and run under node; the packages it imports are stand-ins."),
 "C27": ("generated chain states, arguments, failing lookups and signature sets through the client's helpers; reference model of the instructions, which are then executed in the VM", "The client's own TypeScript runs under node against a node stand-in; what it builds is executed against the built program."),
 "C28": ("generated histories and lists of genuine and altered instructions, each carried out directly and through a calling program; metamorphic relation: same acceptance, byte-identical ledger", "The caller is a program of our own that passes on what it is given, signing for its own addresses."),
})
