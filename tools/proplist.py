TODO = "check under construction"
prop("C01", "Command headers are validated before anything else happens",
     "A command with a wrong class, an unknown instruction, or parameters not defined for that instruction is answered with exactly the status word for that error (6E00, 6D00, 6A86, in that order of precedence) and no data, and leaves the connected application and the screen untouched, and, unless only a session or key-source parameter of a valid sub-command is wrong, an operation in progress as well. A malformed frame is answered with 6A87, and the application keeps serving commands after every answered command. The version and name commands answer with the version number and build flag, and the name, of the application, in every state.",
     ["inputs", "histories"], "every class, instruction, parameter and length byte, from the idle state and in the middle of every kind of operation",
     "No test exercises the dispatcher; the space is every header in every state.",
     ["src/apdu_dispatcher.c", "src/app_main.c", "src/commands/app_version.c", "src/commands/app_name.c"],
     [("header checks", "apdu_dispatcher() in src/apdu_dispatcher.c"), ("command loop", "app_main() in src/app_main.c")], [APDU],
     "Every header from each tested state; one command after the state is reached." + SDK)
prop("C02", "A pending prompt blocks data commands and every command gets one response",
     "While a prompt waits for the user, every public-key, address, attestation and signing command is answered with the busy status, and neither changes what is shown nor what the user's decision then does. Every command is answered exactly once: immediately, or when the user decides if it raised a prompt. After the decision the device is no longer busy.",
     ["histories", "inputs"], "any command with any data sent while any kind of prompt is shown, at any screen, followed by either decision",
     "Tests do not drive the handlers or the screens.",
     ["src/apdu_dispatcher.c", "src/context.c", "src/helpers/cmd_macros.h", "src/commands"],
     [("busy flag", "app_is_ui_busy() in src/context.c"), ("busy check", "CHECK_COMMAND in src/helpers/cmd_macros.h")], [APDU, "screen"],
     "One or two interfering commands per prompt kind." + SDK)
prop("C03", "Multi-part operations are bound to one command and session and end on errors",
     "A continuation of an attestation or signing operation is accepted only while that same operation is in progress and only with the session number issued for it. Any error answered to a part of an attestation or signing operation, and any denial, ends the operation: nothing but a fresh initialisation is accepted afterwards. A continuation never raises a prompt, exports data or signs outside its operation.",
     ["inputs", "histories"], "any continuation with any parameters and data in every reachable kind of state: idle, during another operation, during the same operation with any session number, after any error or denial",
     "Tests never reach the command handlers.",
     ["src/commands/attestinput/ainpt_handler.c", "src/commands/signtx/stx_handler.c", "src/helpers/cmd_macros.h", "src/helpers/session_id.h", "src/context.c"],
     [("session check", "CHECK_SESSION in src/helpers/cmd_macros.h"), ("reset on error", "handler_err in both handlers")], [APDU],
     "One continuation from each state, then one more after an error." + SDK)
prop("C04", "The extended public key is exported only for valid paths and with consent",
     "An extended public key request is served only if its path has at least three levels, starts with 44'/429' and is hardened from the third level on, and if the request holds exactly the announced data. The response is the compressed public key and the chain code derived for exactly the requested path. Unless the request carries the non-zero token of the connected application, nothing is exported before the user approves, and a denial exports nothing.",
     ["inputs"], "every parameter byte, every request of up to 50 data bytes, every connected application, both decisions",
     "The handler is not built by the tests; the guarantee ranges over all requests.",
     ["src/commands/extpubkey", "src/helpers/crypto.c", "src/common/bip32_ext.c"],
     [("path check", "handler_get_extended_public_key() in src/commands/extpubkey/epk_handler.c"), ("prompt", "src/commands/extpubkey/epk_ui.c"),
      ("key derivation", "crypto_generate_public_key() in src/helpers/crypto.c")], [APDU, "screen", "key derivation calls"],
     "All requests of up to 50 data bytes (a valid one has at most 45), any p1 and p2, any connected application, one decision." + SDK)
prop("C05", "Derived addresses are those of the requested path and need consent",
     "An address request is served only for a path 44'/429'/a'/c/i... with a hardened account, change 0 or 1 and a non-hardened index, a network that leaves room for the address type, and exactly the announced data. The address returned or shown is the pay-to-public-key address of the key derived for exactly that path on that network, and the path shown is the requested one. Showing an address, or returning it to an application that is not the connected one, happens only with the user's approval; a denial returns nothing.",
     ["inputs"], "every parameter byte, every request of up to 51 data bytes, every connected application, both decisions",
     "The handler is not built by the tests; the guarantee ranges over all requests.",
     ["src/commands/deriveaddress", "src/ergo/address.c", "src/common/bip32_ext.c", "src/helpers/crypto.c"],
     [("path check", "handler_derive_address() in src/commands/deriveaddress/da_handler.c"), ("prompt", "src/commands/deriveaddress/da_ui.c")],
     [APDU, "screen", "key derivation calls"], "All requests of up to 51 data bytes, one decision." + SDK)
prop("C06", "Attested input frames describe exactly the box that was hashed",
     "The box identifier in attested frames is the Blake2b-256 of exactly the box received: value, script, creation height, tokens, registers, transaction id and output index in canonical form. The frames carry the box's value, its number of frames, and each of its tokens exactly once and in order with its amount, and each is authenticated with the key of this session over all of its content. No frame is issued before the whole box has been received in order, within the limits (20 distinct tokens, 32768 bytes of script and of registers).",
     ["inputs", "histories"], "every box (sizes, contents, chunking) and every order of the parts, within the bounds of the check",
     "Tests exercise the box serializer on a few fixed boxes and never the handler or the frames.",
     ["src/commands/attestinput", "src/ergo/tx_ser_box.c", "src/helpers/input_frame.c"],
     [("hashing", "src/ergo/tx_ser_box.c"), ("frames", "src/commands/attestinput/ainpt_response.c"), ("order", "src/commands/attestinput/ainpt_handler.c")],
     [APDU, "hash input", "authentication code input"], "Boxes of the listed shapes (scripts and registers up to 32768 bytes, up to 20 tokens, pieces of any size for small ones) with arbitrary values; one watched byte position, arbitrary, of every stream." + SDK)
prop("C07", "Only authentic, complete and ordered input frames are accepted for signing",
     "An input frame is accepted for signing only if its authentication code, computed with the key of this device session over all its other content, matches in full. Frames of an input must arrive in order and without gaps, all describe the same box, the first comes with the context extension length, and an input counts only once all its frames have arrived. A frame that holds less than its announced number of tokens implies, or announces more than four tokens, is refused.",
     ["inputs", "histories"], "every frame content and every sequence of frames within the bounds of the check",
     "Tests build frames for the serializer only; the authentication and ordering are never run.",
     ["src/commands/signtx/stx_handler.c", "src/commands/signtx/operations/stx_op_p2pk.c", "src/helpers/input_frame.c", "src/ergo/tx_ser_input.c"],
     [("authentication", "src/helpers/input_frame.c"), ("order", "src/ergo/tx_ser_input.c")], [APDU, "authentication code input"],
     "Up to three frames (any number of inputs, any announced counts) with arbitrary contents; frames with four tokens." + SDK)
prop("C08", "What is signed is exactly the serialization of the transaction received",
     "The message that is signed is the documented byte serialization of exactly the parts received: inputs in order with their context extensions, data inputs, distinct token ids, and outputs with value, script, height, tokens and registers. It is preceded by the Schnorr commitment to the key of the approved path. Every count, length and integer in it is in canonical variable-length form.",
     ["inputs", "histories"], "every transaction of the tested shapes, every value in it",
     "Tests hash a few fixed transactions in the serializer; the composition done by the command handler is never run.",
     ["src/ergo/tx_ser_full.c", "src/ergo/tx_ser_box.c", "src/ergo/tx_ser_input.c", "src/ergo/tx_ser_table.c", "src/commands/signtx", "src/ergo/schnorr.c"],
     [("serializers", "src/ergo/tx_ser_*.c"), ("composition", "src/commands/signtx/operations/stx_op_p2pk.c")], ["hash input", APDU],
     "Transactions of the listed shapes (scripts, registers and extensions up to 32768 bytes, 300 data inputs, 130 inputs or outputs, 20 tokens, pieces of any size for small ones) with arbitrary values; one arbitrary watched byte position of the hashed stream." + SDK)
prop("C09", "Transaction parts are accepted only in order, in the announced numbers, complete",
     "Parts of a transaction are accepted only in the protocol's order and in exactly the announced counts and sizes (inputs, frames, extension bytes, data inputs, distinct tokens, outputs, script bytes, output tokens, register bytes), and a transaction is confirmed only when complete. Counts and sizes over the limits, zero inputs, zero outputs, truncated entries and entries beyond the announced number are refused. Everything that is in order and within the limits is accepted.",
     ["histories", "inputs"], "every sequence of parts of the tested lengths with any contents and chunk sizes",
     "Tests run a few good sequences on the serializer alone.",
     ["src/ergo/tx_ser_full.c", "src/ergo/tx_ser_box.c", "src/ergo/tx_ser_input.c", "src/ergo/tx_ser_table.c", "src/commands/signtx"],
     [("serializer states", "src/ergo/tx_ser_*.c"), ("operation state", "src/commands/signtx/operations/stx_op_p2pk.c")], [APDU],
     "Sequences of bounded length in lock step with a specification automaton." + SDK)
prop("C10", "Amounts and fees are exact and overflow is refused",
     "The amount shown at the end equals the sum of the input values minus change and fee outputs, the fee equals the sum of the fee outputs, and each token difference equals the sum over inputs minus the sum over outputs, exactly. Arithmetic that would wrap is refused, never shown or signed. A token may not be listed again in an output in which it already has an amount, nor may an output hold a token outside the announced table.",
     ["inputs", "histories"], "all 64-bit amounts, all the tested shapes of transactions",
     "Tests check a few sums; wraparound lies at the edges of 64-bit ranges.",
     ["src/commands/signtx/stx_amounts.c", "src/common/safeint.h", "src/commands/signtx/stx_output.c", "src/commands/signtx/operations/stx_op_p2pk.c", "src/commands/signtx/stx_ui.c"],
     [("accumulation", "src/commands/signtx/stx_amounts.c"), ("display", "src/commands/signtx/stx_ui.c")], [APDU, "screen"],
     "All 64-bit values in transactions of bounded shape." + SDK)
prop("C11", "Every output that is not exempt is shown, as signed, and needs approval",
     "Before an output other than a token-free miner fee or the user's own change becomes part of the transaction, the user is shown its destination, value and tokens (those with a non-zero amount) and must approve; a denial ends the operation. The destination shown is the one the signed script pays to (address of its key, or its script hash), and values and tokens shown equal the ones signed. Nothing of a shown output differs from what enters the signed stream.",
     ["inputs", "histories"], "every output of every kind (fee, change, key, script hash, other script) with any value and tokens, both decisions",
     "The screens and handlers are not built by the tests.",
     ["src/commands/signtx/stx_ui.c", "src/commands/signtx/stx_output.c", "src/commands/signtx/operations/stx_op_p2pk.c", "src/ergo/ergo_tree.c", "src/ergo/address.c"],
     [("when to show", "src/commands/signtx/operations/stx_op_p2pk.c"), ("what to show", "src/commands/signtx/stx_ui.c")], ["screen", APDU, "hash input"],
     "Outputs of each kind with arbitrary contents and up to two tokens (20 with fixed amounts); two scripts of any kinds sent for one output." + SDK)
prop("C12", "Change is accepted without asking only on the user's own nearby paths",
     "A change output goes unshown only if its path is a valid address path that is either the path the user approved for the preceding shown change, or lies in the account and chain of the signing path with an index less than 20 above the signing index. Any other change path is shown and needs approval, and an invalid one is refused. The change script pays to the key derived for exactly that path.",
     ["inputs", "histories"], "every change path of every length, every signing path, with and without earlier approvals",
     "The handler is not built by the tests; the rule ranges over all pairs of paths.",
     ["src/commands/signtx/operations/stx_op_p2pk.c", "src/common/bip32_ext.c", "src/commands/signtx/stx_output.c"],
     [("exemption rule", "src/commands/signtx/operations/stx_op_p2pk.c")], ["screen", APDU, "key derivation calls"],
     "All pairs of paths; up to two change outputs." + SDK)
prop("C13", "Nothing is signed without final approval of the exact summary",
     "A signature is produced only after the transaction is complete and the user approves a summary that shows the signing path, amount, fee and every token with a non-zero difference. A denial yields no signature and ends the operation, and one approval yields exactly one signature. The signature is made with the key of the path that was approved at the start of the operation.",
     ["inputs", "histories"], "every transaction of the tested shapes, both decisions, every screen",
     "The handler and screens are not built by the tests.",
     ["src/commands/signtx/stx_ui.c", "src/commands/signtx/operations/stx_op_p2pk.c", "src/commands/signtx/stx_handler.c"],
     [("confirmation", "src/commands/signtx/stx_ui.c"), ("signing", "src/commands/signtx/stx_response.c")], ["screen", APDU, "key operations"],
     "Transactions of bounded shape with arbitrary values." + SDK)
prop("C14", "Signatures follow the Schnorr scheme with a fresh, valid, hidden nonce",
     "A signature is the 24-byte truncated hash of commitment prefix and message followed by (challenge times secret plus nonce) modulo the group order, where the prefix holds the public key of the secret and the nonce's group element. The nonce is a fresh random number that is a valid non-zero scalar below the group order; unusable draws are discarded. Any failure of a primitive, or a zero challenge, yields no signature.",
     ["inputs", "fault_sequences"], "every secret, message, random draw and primitive output; any failure of one SDK call",
     "Tests check a fixed vector with a fixed nonce.",
     ["src/ergo/schnorr.c", "src/helpers/crypto.c"], [("nonce and commitment", "src/ergo/schnorr.c"), ("signature", "src/ergo/schnorr.c")],
     ["signature bytes", "SDK calls"],
     "Any secret and message (symbolic up to 6 bytes after the prefix); up to two unusable draws before a usable one; one SDK failure at any point." + SDK)
prop("C15", "Secrets are wiped on every path",
     "Private keys, derived node keys, nonces and intermediate scalars are erased from every temporary buffer before control leaves the routine that used them, on success and on every failure. A signing operation's secret is held only while that signature is being made. A failed derivation or signature leaves no secret material in the caller's outputs.",
     ["inputs", "fault_sequences"], "every path and secret; SDK failures at up to three arbitrary points",
     "Tests do not look at memory after the call and never inject failures.",
     ["src/helpers/crypto.c", "src/ergo/schnorr.c"], [("wiping", "explicit_bzero in src/helpers/crypto.c and src/ergo/schnorr.c")], ["memory after the call"],
     "Any path of the tested lengths; up to three SDK failures at any point; native frames are followed symbolically." + SDK)
prop("C16", "Byte buffers never read or write outside their storage or lose data",
     "No sequence of operations on a byte buffer reads or writes outside its storage, reports more data or space than there is, or moves the read position past the write position. A read or write that does not fit fails without changing buffer or storage; one that fits moves exactly the bytes asked for, in order. Integers are encoded and decoded in the requested byte order.",
     ["inputs", "histories"], "any valid buffer state, any length, offset and value",
     "Tests cover a few lengths; the failure cases depend on 64-bit lengths and offsets.",
     ["src/common/rwbuffer.c", "src/common/buffer_ext.c"], [("bounds checks", "src/common/rwbuffer.c and src/common/buffer_ext.c")], ["return values", "buffer contents"],
     "One arbitrary operation from any state of a buffer of up to 24 bytes with any 64-bit argument: an inductive step, so it covers sequences of any length.")
prop("C17", "Variable-length integers round-trip exactly and bad encodings are rejected",
     "Encoding a value of any width and decoding it returns the value and consumes exactly the encoding, which is the shortest base-128 one of the value (signed values: of its zigzag image, widened to 64 bits). An encoding that is truncated or of a value that does not fit the type is rejected. An encoding that does not fit the space left writes nothing, and decoding never reads past the data.",
     ["inputs"], "all values of all widths and all byte strings of up to 16 bytes",
     "Tests sample a few dozen values of a 64-bit range.",
     ["src/common/gve.c", "src/common/zigzag.h"], [("encoding", "src/common/gve.c")], ["return values", "buffer contents"],
     "All values of 8, 16, 32 and 64 bits and all buffers of up to 16 bytes: complete for these types, since no encoding is longer than 10 bytes.")
prop("C18", "Checked arithmetic reports overflow exactly",
     "Checked additions and subtractions of 64-bit amounts succeed exactly when the mathematical result is representable, and then give that result. When they fail the destination keeps its value. They have no undefined behaviour for any operands.",
     ["inputs"], "all pairs of 64-bit operands, signed and unsigned",
     "Tests sample a few pairs out of 2^128.",
     ["src/common/safeint.h"], [("range checks", "src/common/safeint.h")], ["return values"], "All pairs of operands: complete.")
prop("C19", "Derivation path predicates decide exactly the paths they name",
     "Path validation accepts exactly the paths of the named type (public-key or address of this coin, with hardening and ranges checked at every level) and nothing else. Comparison of paths, or of their leading parts, is true exactly when every compared element is equal.",
     ["inputs"], "all paths of up to ten elements, all element values, all types",
     "Tests sample a few paths.",
     ["src/common/bip32_ext.c", "src/common/buffer_ext.c"], [("predicates", "src/common/bip32_ext.c")], ["return values"],
     "All paths of up to 10 elements, the maximum the application handles: complete.")
prop("C20", "Addresses and output scripts are built and recognised exactly",
     "The pay-to-public-key script of a key, the miner fee script and the addresses of keys and script hashes are exactly the documented bytes, including the checksum over all preceding bytes and the network in the first byte. A script is recognised as pay-to-public-key or pay-to-script-hash exactly when it has that form byte for byte, and then the key or hash extracted is the one in the script. Networks that would overflow the first byte are refused.",
     ["inputs"], "all keys, hashes, networks, and scripts of the recognised lengths",
     "Tests check a few fixed keys and scripts.",
     ["src/ergo/ergo_tree.c", "src/ergo/address.c"], [("scripts", "src/ergo/ergo_tree.c"), ("addresses", "src/ergo/address.c")], ["returned bytes"],
     "All inputs of these functions: complete up to the SDK hash, whose output is arbitrary.")
prop("C21", "A serializer that reported an error stays failed",
     "Once adding a part of a box, input or transaction to a serialization has reported an error, every later operation on that serialization reports an error. No identifier, completed state or completion callback comes out of a failed serialization. Parts delivered out of order are errors.",
     ["inputs", "histories"], "every serializer state, every operation, every argument",
     "Tests check a handful of wrong sequences.",
     ["src/ergo/tx_ser_box.c", "src/ergo/tx_ser_input.c", "src/ergo/tx_ser_full.c", "src/ergo/tx_ser_table.c"], [("error state", "src/ergo/tx_ser_*.c")],
     ["return values"], "Sequences of operations on a box (from any position), an input and a transaction, each compared with the specification; see DESIGN.md." + SDK)
prop("C22", "The table of distinct tokens holds at most twenty ids, in order, as received",
     "The token table never holds more than twenty ids or more than announced, appends ids in the order received and never alters earlier ones. An id is found exactly when it is present, at its first position. The announced ids, and only those, are hashed, preceded by their count; truncated and surplus ids are refused.",
     ["inputs", "histories"], "any table of up to twenty ids, any chunk of up to 100 bytes",
     "Tests fill tables with a few fixed ids.",
     ["src/ergo/tx_ser_table.c", "src/ergo/tx_ser_table.h"], [("limits", "src/ergo/tx_ser_table.c and tx_ser_table.h")], ["return values", "hash input"],
     "One operation from any table (inductive step), chunks of up to 3 ids." + SDK)
prop("C23", "No command can cause a memory error or undefined behaviour",
     "No sequence of commands, user actions and SDK outcomes makes the application read or write outside an object, use a stale or uninitialised pointer, divide by zero, overflow a signed integer or otherwise run into undefined behaviour. Whatever the data, the application answers or waits for the user. The response always fits the transport buffer.",
     ["inputs", "histories", "fault_sequences"], "every header and data of up to 255 bytes, in each tested state, each screen",
     "Tests run under no sanitizer and never reach handlers or screens.",
     ["src"], [("length checks", "buffer reads in src/commands and src/ergo"), ("response buffers", "src/helpers/response.h")], ["memory accesses"],
     "Every command with any data at every point of five scenarios, with traps for undefined behaviour and every access checked by the solver." + SDK)
prop("C24", "Every screen shows intact text within its buffers",
     "Whatever is displayed - paths, application ids, addresses, amounts, token ids, with any number of tokens up to the limit - titles and texts fit their buffers and are terminated. Moving forwards or backwards through any prompt visits every screen, each with the content belonging to it, in both directions, and ends at approve and reject. A prompt that would need more screens than there are is refused with an error.",
     ["inputs", "histories"], "all values shown, all numbers of tokens, all sequences of navigation of the tested lengths",
     "The screens are not built by the tests.",
     ["src/ui", "src/commands/signtx/stx_ui.c", "src/commands/deriveaddress/da_ui.c", "src/commands/extpubkey/epk_ui.c", "src/commands/attestinput/ainpt_ui.c"],
     [("dynamic flow", "src/ui/ui_dynamic_flow.c"), ("screen formatting", "src/commands/*/*_ui.c")], ["screen"],
     "Every screen of each kind of prompt with up to 20 tokens, forwards and backwards, and all short sequences of moves; any number of on-demand screens." + SDK)
prop("C25", "Applications are authorised only by the user",
     "The connected application changes only when the user approves a prompt that belongs to a request carrying that application's token, and then becomes that token (none, if the request carried none). A request is treated as coming from the connected application only if its token is non-zero and equal to it. When a request carries an application token that is not the connected one, the prompt shows that token.",
     ["inputs", "histories"], "every request with any token, any connected application, both decisions, all four data commands",
     "The handlers and screens are not built by the tests.",
     ["src/context.c", "src/ui/ui_application_id.c", "src/commands"], [("connected application", "src/context.c"), ("approval callbacks", "src/commands/*/*_ui.c")],
     ["screen", APDU], "One request and decision, followed by another request, for each data command." + SDK)
prop("C26", "A signing operation starts only for an address path, a known network and with approval",
     "A signing operation starts only when the request holds exactly a network (mainnet or testnet), a path 44'/429'/a'/c/i... with a hardened account, change 0 or 1 and a non-hardened index, and the announced token, and the user approves a prompt that shows exactly this path. A refused or denied request starts nothing and returns no data. The approved operation answers with a non-zero session number and uses the key derived for exactly this path.",
     ["inputs"], "every parameter, every request of up to 51 data bytes, every connected application, both decisions",
     "The handler is not built by the tests; the guarantee ranges over all requests.",
     ["src/commands/signtx/stx_handler.c", "src/commands/signtx/operations/stx_op_p2pk.c", "src/commands/signtx/stx_ui.c", "src/ui/ui_bip32_path.c"],
     [("request checks", "handle_init_p2pk() in src/commands/signtx/stx_handler.c"), ("prompt", "ui_stx_operation_p2pk_show_token_and_path() in src/commands/signtx/operations/stx_op_p2pk.c")],
     [APDU, "screen", "key derivation calls"], "All requests of up to 51 data bytes, one decision." + SDK)
prop("C27", "A failing system primitive is never taken for success",
     "If the hash function, the key derivation, the curve arithmetic or the formatting of a text fails while a command or a decision of the user is handled, the answer is an error without data, nothing is offered for approval, and the operation in progress has ended. The only exception is the preparation of a nonce, which may start over; then the outcome is the same as if nothing had failed.",
     ["fault_sequences", "histories"], "one failure of any primitive at any point of each kind of operation, then any continuation",
     "Tests never make a primitive fail.",
     ["src/helpers/crypto.c", "src/helpers/blake2b.h", "src/ergo", "src/commands", "src/ui"],
     [("status checks", "every call of the SDK in src/helpers, src/ergo, src/common and src/ui"), ("error answers", "handler_err() in src/commands/*/*_handler.c")],
     [APDU, "screen"], "One failure (thorough: two) in six scenarios: key, address, attestation and signing of one transaction with all kinds of parts." + SDK)
prop("C28", "An attestation starts only for a well-formed request, with consent or for the connected application",
     "An attestation starts only when the request holds exactly the box parameters within the limits (script and registers of at most 32768 bytes, at most 20 tokens) and the announced token, and either the user approves a prompt or the request carries the non-zero token of the connected application. It is answered with a non-zero session number. A refused or denied request starts nothing, and no part is accepted after it.",
     ["inputs"], "every parameter, every request of up to 62 data bytes, every connected application, both decisions, one part afterwards",
     "The handler is not built by the tests; the guarantee ranges over all requests.",
     ["src/commands/attestinput", "src/ergo/tx_ser_box.c", "src/helpers/session_id.h"],
     [("request checks", "handle_init() in src/commands/attestinput/ainpt_handler.c"), ("prompt", "src/commands/attestinput/ainpt_ui.c")],
     [APDU, "screen"], "All requests of up to 62 data bytes, one decision, one part." + SDK)
prop("C29", "Every session starts clean with a fresh secret key that stays the same",
     "At every start the application draws a new random 16-byte session key, no application is connected and no operation is in progress, whatever was in memory before; nothing can be continued. No command, decision or failure changes the session key until the next start.",
     ["inputs", "histories"], "any memory contents before the start; any command with any data of up to 70 bytes at any point of each kind of operation, both decisions",
     "Tests never start the application.",
     ["src/context.c", "src/context.h", "src/app_main.c"],
     [("start", "app_init() in src/context.c"), ("change of command", "app_set_current_command() in src/context.c")],
     [APDU, "session key"], "One arbitrary command at each point of six scenarios." + SDK)
prop("C30", "Secrets do not leave the device",
     "What is answered and what is shown does not depend on the private keys, the nonces or the session key, except through the one-way functions and the signature equation: two runs of an operation with the same inputs and different secrets are indistinguishable, given the same results of those functions. This holds also when a primitive fails.",
     ["inputs", "fault_sequences"], "every request of the tested shapes, all pairs of secrets, one failure of a primitive at any point",
     "It relates two executions; tests compare single ones with fixed results.",
     ["src/helpers/crypto.c", "src/commands", "src/ergo/schnorr.c", "src/ui"],
     [("answers", "src/commands/*/*_response.c"), ("screens", "src/commands/*/*_ui.c")],
     [APDU, "screen"], "One key or address request of any contents, one attestation, one signing operation; one watched byte of every answer and text." + SDK)
