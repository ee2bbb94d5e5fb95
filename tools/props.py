MON = 'runtime monitoring: the generated coder is compiled and run on generated specs, values and byte strings; an online oracle (independent reference codec) judges every execution'
TESTS = 'The tests compile a few dozen fixed specs and compare a handful of fixed values or the shape of generated code; '
BOUND = 'Specs are a fixed catalogue plus seeded random ones; values, bytes and stream schedules are sampled with seeds. Reference codec and model parser are written independently of the repository.'

p('C01', 'Decoding what was encoded gives back the same value',
  'For every accepted spec and every value of a declared type that its encoder accepts, decoding the encoded bytes with the same arguments succeeds, yields the same value (calculated fields at their calculated values) and consumes exactly the bytes that were encoded.',
  ['programs', 'inputs'], 'all accepted specs, all arguments and all values the encoder accepts',
  TESTS + 'the claim is about every spec and every value.',
  ENC + DEC, [('coding programs', B+'coder/encode/mod.rs, coder/decode/mod.rs'), ('emission', B+'compiler/encoder.rs, compiler/decoder.rs')], MON + '; here encode then decode, compared field by field with the value put in', BOUND)
p('C02', 'Encoded bytes are exactly the ones the spec prescribes',
  'For every accepted spec and every consistent value, synchronous encoding succeeds and writes exactly the bytes the specification language prescribes: fields in order, big-endian scalars unless the spec says otherwise, calculated fields, arrays, strings, conditions, transforms and padding as declared.',
  ['programs', 'inputs'], 'all accepted specs and all consistent values',
  TESTS + 'an encoder and decoder that are wrong in the same way pass every round-trip test.',
  ENC + [B+'prelude', B+'compiler/expr.rs'], [('encode programs', B+'coder/encode/'), ('emission of put instructions', B+'compiler/encoder.rs')], MON + '; byte-for-byte comparison with the reference encoder', BOUND)
p('C03', 'Decoding arbitrary bytes is total, exact and bounded in memory',
  'For every accepted spec and every byte string, decoding stops without panicking or aborting; it yields exactly the value the spec assigns to those bytes and consumes exactly its bytes, or fails if there is none. The memory it allocates is bounded by a multiple of the input it was given, whatever lengths that input claims.',
  ['programs', 'inputs'], 'all accepted specs and all byte strings, in particular malformed and adversarial ones',
  TESTS + 'malformed input is hardly decoded at all.',
  DEC + [B+'prelude'], [('decode programs', B+'coder/decode/'), ('emission of get instructions', B+'compiler/decoder.rs')], MON + ' including a counting allocator, panic capture, a per-process address-space limit and a progress watchdog', BOUND + ' Allocation limit: 1 MiB + 600 times the input.')
p('C04', 'Decoding does not depend on how the reader delivers its bytes',
  'The result of decoding and the bytes consumed depend only on the bytes: not on how they are split into reads or buffer fills, nor on interruptions. If the stream ends before the value is complete, or the reader reports an error while bytes are still needed, decoding reports an error, never a value.',
  ['inputs', 'schedules', 'fault_sequences'], 'all byte strings, all splits of them into reads, all truncation and error points',
  TESTS + 'the tests read from complete in-memory slices.',
  DEC + [B+'prelude'], [('buffered and unbuffered reads', B+'compiler/decoder.rs')], MON + '; hostile readers: one-byte windows, random windows, interruptions, truncation at every point, injected errors', BOUND)
p('C05', 'Encoding reports every write failure and survives short writes',
  'Encoding to any conforming writer delivers the whole encoding when the writer accepts it in pieces or is interrupted. If the writer fails or stops accepting bytes before the encoding is complete, encoding reports an error and what was delivered is a prefix of the encoding.',
  ['inputs', 'schedules', 'fault_sequences'], 'all values, all splits into writes, all fault points',
  TESTS + 'the tests write to a vector, which never fails.',
  ENC + [B+'prelude'], [('emission of writes', B+'compiler/encoder.rs'), ('finishing of transforms', B+'prelude/gzip.rs, prelude/base64.rs')], MON + '; hostile writers: short writes, interruptions, errors and zero-length writes at every byte offset', BOUND)
p('C06', 'Values the spec cannot express are refused by the encoder',
  'Encoding a value that contradicts its spec (array or string length other than declared, missing or superfluous conditional field, variant that its condition excludes, content that does not fit its declared length, calculated length that does not fit its field) reports an error and does not panic; it never reports success with bytes that decode to something else.',
  ['programs', 'inputs'], 'all accepted specs and all values of the generated types, consistent or not',
  TESTS + 'hardly any inconsistent value is encoded by them.',
  ENC + [B+'prelude'], [('length checks', B+'compiler/encoder.rs'), ('condition checks', B+'coder/encode/field.rs')], MON + '; values are altered, the reference encoder decides whether they are still consistent', BOUND)
p('C07', 'Calculated fields are written as calculated from the other fields',
  'A field declared with a value expression is always encoded as the value of that expression over the other fields of the container (element counts and byte lengths included, wherever the field is placed), whatever the value held in memory, and with the width and sign it is declared with.',
  ['programs', 'inputs'], 'all calculated fields, all expressions, all values of the other fields and of the field itself',
  TESTS + 'the tests calculate a length in a few layouts.',
  [B+'coder/encode', B+'prelude/len.rs', B+'prelude/blen.rs', B+'compiler/encoder.rs', B+'compiler/expr.rs'], [('order of calculated fields', B+'coder/encode/container.rs'), ('len, blen', B+'prelude/len.rs, prelude/blen.rs')], MON + '; calculated fields are filled with noise before encoding', BOUND)
p('C08', 'Conditional fields are present exactly when their condition holds',
  'A conditional field is encoded, and decoded, exactly when its condition evaluates to true over the fields and arguments it refers to; otherwise it takes no bytes and decodes to absence.',
  ['programs', 'inputs'], 'all conditions, nesting of conditional fields, values and bytes',
  TESTS + 'few conditions and few truth assignments are used.',
  [B+'coder/encode/field.rs', B+'coder/decode/field.rs', B+'compiler/expr.rs'], [('conditional instruction', B+'coder/encode/field.rs, coder/decode/field.rs')], MON, BOUND)
p('C09', 'Tagged enums select their variant by their conditions alone',
  'A tagged enum decodes to the first variant whose condition holds and encodes the variant it holds, payload and transforms included; it is an error if no condition holds, or if the variant held is not the one selected.',
  ['programs', 'inputs'], 'all tagged enums, arguments, values and bytes',
  TESTS + 'they use a few tags.',
  [B+'coder/encode/container.rs', B+'coder/decode/container.rs', B+'compiler/encoder.rs', B+'compiler/decoder.rs'], [('enum dispatch', B+'coder/encode/container.rs, coder/decode/container.rs')], MON, BOUND)
p('C10', 'Transforms are applied in order, if their condition holds, and reversed',
  'The bytes of a transformed field are the bytes of the untransformed field passed through its transforms in declaration order, skipping those whose condition is false; decoding applies the inverses in reverse order. Bytes outside the field are never touched, and errors and end of stream inside a transform surface as errors.',
  ['programs', 'inputs', 'fault_sequences'], 'all chains of transforms, conditions, arguments, values and stream behaviours',
  TESTS + 'they use at most one transform on whole buffers.',
  ENC + DEC + [B+'ffi/transform.rs'], [('stream wrapping', B+'coder/encode/field.rs, coder/decode/field.rs')], MON + '; transforms supplied by the harness, position-dependent and not commuting, so that order and extent are visible', BOUND + ' Foreign transforms of the harness; gzip and base64 are covered by C15.')
p('C11', 'Length-bounded content occupies exactly its declared length',
  'Content of a container with a byte length is decoded from exactly that many bytes: all of them are taken from the stream, none behind them, and fewer are an error; encoding writes exactly that many or fails; byte-length fields equal the encoded size of what they measure; padding takes the declared number of bytes.',
  ['programs', 'inputs'], 'all bounded containers, byte-length fields and paddings, all values and bytes',
  TESTS + 'they bound one container.',
  ENC + DEC + [B+'prelude/blen.rs', B+'prelude/pad.rs'], [('limited readers and size checks', B+'compiler/decoder.rs, compiler/encoder.rs')], MON, BOUND)
p('C12', 'Enum and bitfield constants and codings match their declaration',
  'Every enum and bitfield constant has exactly its declared or continued value; encoding writes the representation in its declared width and byte order; decoding accepts exactly the declared values (any value where there is a default variant, any combination of declared flags) and rejects all others.',
  ['programs', 'inputs'], 'all enum and bitfield declarations and all representations',
  TESTS + 'a few constants are compared.',
  [B+'compiler/mod.rs', B+'coder', B+'semantics'], [('constant emission', B+'compiler/mod.rs'), ('automatic values', B+'semantics')], MON + '; 8-bit representations are enumerated, wider ones sampled at every bit', BOUND)
p('C13', 'Arrays hold exactly the elements their bounds prescribe',
  'Counted arrays decode exactly the declared number of elements, terminated arrays stop at the first element boundary where the terminator stands and consume it, unbounded arrays run to the end of their stream; encoding writes the inverse and refuses a length that contradicts the declaration. This holds for every element type and any nesting.',
  ['programs', 'inputs'], 'all element types, bounds, nestings, values and bytes',
  TESTS + 'they use arrays of a few primitive elements.',
  ENC + DEC, [('array loops and terminators', B+'coder/encode/array.rs, coder/decode/array.rs, compiler')], MON, BOUND)
p('C14', 'Strings and variable-length integers code exactly the spec\'s values',
  'utf8 and utf16 strings and the variable-length integers v8 to v128 encode every value in their prescribed form and within their declared length or terminator; decoding accepts exactly the well-formed representations of values of the type and rejects ill-formed, overlong-for-the-type or truncated ones.',
  ['inputs'], 'all strings and integers, all byte strings, all length and terminator forms',
  TESTS + 'a few small values are used.',
  [B+'prelude/utf8.rs', B+'prelude/utf16.rs', B+'prelude/var.rs'], [('string and integer coders', B+'prelude/utf8.rs, prelude/utf16.rs, prelude/var.rs')], MON, BOUND)
p('C15', 'Content coded with gzip or base64 survives, and damage to it is an error',
  'What is encoded with the gzip and base64 transforms, alone, chained, conditional or next to other transforms, is well-formed data of these formats that holds exactly the content the spec prescribes, and is decoded to the same value, however reads and writes are split. Every well-formed encoding of the content is decoded alike. Where data is damaged, cut off or not delivered before the value is complete, decoding fails; a writer that fails before the last byte makes encoding fail.',
  ['programs', 'inputs', 'schedules', 'fault_sequences'], 'all specs with these transforms, all content, all well-formed and damaged encodings of it, all stream behaviours',
  'The tests only look at code generated for them; compressed data has many forms, and damage shows in few places.',
  [B+'prelude/gzip.rs', B+'prelude/base64.rs', B+'compiler/encoder.rs', B+'compiler/decoder.rs'], [('gzip and base64 streams', B+'prelude/gzip.rs, prelude/base64.rs'), ('stream wrapping and finishing', B+'compiler/encoder.rs, compiler/decoder.rs')], MON + '; encodings are decoded by a reference inflater, other encodings of the content, cut, bit-flipped and failing streams are fed to the decoder', BOUND + ' The crate base64 is not available offline: a stand-in of the same interface is used. The position after compressed data that is not bounded is not checked.')
p('C16', 'The asynchronous coder behaves as the synchronous one',
  'With async code generation on, encode_async and decode_async give for every value, byte string and reader or writer behaviour the outcome the synchronous coder gives (same bytes, same value, same consumption, errors where it has errors), for every schedule of suspensions.',
  ['programs', 'inputs', 'schedules', 'fault_sequences'], 'all accepted specs, values, bytes, stream faults and poll schedules',
  TESTS + 'asynchronous code is only checked to compile for some of them, and never run.',
  [B+'compiler/encoder.rs', B+'compiler/decoder.rs', B+'compiler/mod.rs', B+'prelude'], [('async emission', B+'compiler/encoder.rs, compiler/decoder.rs')], MON + '; both coders run, the async one under a poller that suspends at random and wakes later', BOUND + ' gzip and base64 have no async form.')
p('C18', 'Type arguments, aliases and references carry through any depth',
  'A declared type behaves the same when used directly, through aliases, as a field, as an array element or recursively, and its arguments (defaults included) are evaluated where it is referenced and seen inside it at exactly these values.',
  ['programs', 'inputs'], 'all reference graphs including recursion, all arguments, values and bytes',
  TESTS + 'arguments are passed one level deep.',
  [B+'coder', B+'compiler', B+'semantics'], [('argument passing', B+'compiler/encoder.rs, compiler/decoder.rs')], MON, BOUND)

FRONT = 'runtime monitoring: the real front end runs in supervised worker processes on generated, mutated and adversarial specs'
p('C21', 'Accepting or rejecting a spec is total: no input panics, hangs or aborts it',
  'For every text, tokenizing, parsing and semantic analysis end promptly with a result or an error; no text makes any of these stages panic, abort, overflow, or consume time or memory out of proportion to its size.',
  ['inputs'], 'all texts: token soup, mutations of real specs, deeply nested and oversized ones',
  'The tests feed well-formed specs and a few errors; '+'a user feeds anything.',
  [B+'tokenizer.rs', B+'parser', B+'asg', B+'semantics'], [('tokenizer', B+'tokenizer.rs'), ('parser', B+'parser'), ('resolution', B+'semantics')], FRONT + '; monitors: panic capture, progress watchdog, address-space limit', 'Random nesting up to about 120 levels; each kind of nesting is also tried 100000 deep in a process of its own, where the stack overflows (known finding deep-nesting).')
p('C19', 'A mistake in a spec is refused, with its kind, the culprit and the place',
  'A spec that refers to an undeclared or invisible name, redeclares a name, mixes types, casts illegally, passes wrong arguments, uses unknown flags, defines a type where none may stand, recurses through imports, or breaks a rule on enums, bitfields or containers is refused by the front end with the error of that kind, which names the culprit and carries its place; the same spec without the mistake is accepted. This holds wherever the mistake stands and whatever surrounds it.',
  ['programs'], 'all specs with one mistake, all places where it can stand',
  'The tests hold a few dozen broken specs, one per error at one place, and only look at the variant of the error; '+'every context and combination matters.',
  [B+'semantics'], [('semantic analysis', B+'semantics/convert'), ('error kinds', B+'semantics/error.rs')], FRONT + '; every case is a pair that differs in one place: the valid spec must be accepted, the one with the planted mistake refused with the expected kind, name and place', 'Mistakes are about 300 templates planted into random contexts and expressions under random names and layout. The place must be exact for mistakes that are a name or a literal; for others it must lie on the wrong expression or declaration.')
p('C22', 'Tokenizing a text yields exactly its tokens, values and positions',
  'For every text, the tokenizer yields the tokens the lexical rules prescribe (longest match, keywords, integer and string values, comments) or rejects the text exactly when it is lexically ill-formed, and every token carries its line, column and length in the text. In the syntax tree, names, literals and expressions carry the place of exactly their text.',
  ['inputs'], 'all texts',
  'The tests tokenize a few lines; '+'every text matters.',
  [B+'tokenizer.rs'], [('tokenizer', B+'tokenizer.rs')], FRONT + '; an independent reference tokenizer compares every token, value and position', 'Texts are generated and mutated with seeds.')
p('C23', 'Parsing accepts exactly the grammar and builds the tree the text prescribes',
  'For every text, parsing succeeds exactly if the text derives from the grammar, and then yields the tree with the precedence, associativity, flags, arguments and names the grammar prescribes, independently of whitespace and comments; a refusal is about the first token (or the end of the text) with which the tokens so far begin no program, and carries its place. A tree written out with serde and read back is the same tree.',
  ['inputs'], 'all texts',
  'The tests parse a few specs and do not check the tree; '+'every text matters.',
  [B+'parser', B+'ast'], [('grammar', B+'parser')], FRONT + '; an independent reference parser judges acceptance and compares the trees', 'Texts are generated and mutated with seeds.')
p('C24', 'A name means what the scoping rules say, whatever else is called the same',
  'A name in an expression refers to the visible field of that name if there is one, otherwise to the argument, otherwise to the constant; forward references resolve only in calculated fields. Renaming fields, arguments and constants of a valid spec so that the hidden and the foreign share names (a constant named as a field, a field named as a local of the generated code) leaves the code compilable and the bytes and values it codes unchanged.',
  ['programs', 'inputs'], 'all valid specs and all capture-free renamings of their fields, arguments and constants, all values and bytes',
  TESTS + 'their names never collide.',
  [B+'semantics/scope.rs', B+'semantics/convert/expression', B+'compiler', B+'coder'], [('scopes', B+'semantics/scope.rs'), ('naming in generated code', B+'compiler/mod.rs, coder/encode, coder/decode')], MON + '; the reference works on the spec before renaming, the repository gets the renamed one', BOUND + ' Names of types, variants and flags are not renamed: their collisions are known findings of C25.')
p('C17', 'Expressions compute the value the language gives them, wherever they stand',
  'An expression over constants, fields and arguments, in a calculated field, condition, length or argument, evaluates in the generated coder to the value its operators prescribe: precedence, operand widths and signedness, implicit widening, casts, shifts, comparison, short-circuit, ternary, elvis, indexing, members and functions.',
  ['programs', 'inputs'], 'all well-typed expressions and all values of what they refer to, as far as the result is defined (no overflow, division by zero or index out of range)',
  TESTS + 'few operators are ever evaluated.',
  [B+'compiler/expr.rs', B+'semantics/convert/expression', B+'asg/expression', B+'prelude'], [('emission of expressions', B+'compiler/expr.rs'), ('typing and coercion', B+'semantics/convert/expression')], MON + '; expressions are generated type-directed to depth 4 and evaluated by an independent evaluator', BOUND)
p('C25', 'Code generated from a valid spec compiles, in safe Rust, under every option',
  'For every valid spec (one whose expressions, references and types follow the language) and every set of code generation options (async coders, anyhow errors, derives, debug mode), code generation succeeds without panicking and the code it yields is accepted by rustc, unsafe code forbidden.',
  ['programs'], 'all valid specs and all option sets',
  'The tests compile a few dozen fixed specs with fixed options; what a user writes is a spec of their own.',
  [B+'compiler', B+'coder', B+'prelude', B+'semantics'], [('emission', B+'compiler'), ('coding programs', B+'coder')], 'runtime monitoring: the real generator runs on catalogue and random specs under random options, with panic capture; the oracle is rustc type-checking and borrow-checking every module with unsafe code forbidden', 'Specs are a catalogue plus seeded random ones. Seven kinds of spec that the front end accepts although the code cannot compile are known findings.')
p('C26', 'Constant expressions give enums and bitfields exactly the values they compute',
  'A variant or flag whose value is an expression over literals, constants and other variants has, in the generated code and in its coding, exactly the value that expression computes in the declared type, and one without a value continues from it. A spec in which such a value does not exist (overflow, division by zero, shift out of range, no constant) or repeats that of another variant is refused with an error naming the variant, never accepted and never answered with a panic.',
  ['programs', 'inputs'], 'all constant expressions, integer types and positions in enums and bitfields',
  'The tests declare a handful of variants, nearly all with plain literals.',
  [B+'compiler/expr.rs', B+'asg/expression', B+'semantics/convert/type_', B+'compiler/mod.rs'], [('constant evaluation', B+'compiler/expr.rs, asg/expression/const_int.rs'), ('value assignment', B+'semantics/convert/type_/enum_.rs, semantics/convert/type_/bitfield.rs')], MON + '; constants of the compiled code are read out and compared with an independent evaluator; expressions without value are planted and must be refused', BOUND)
p('C27', 'Generated code depends on nothing but the spec and the options',
  'Generating code from a spec with given options yields the same tokens, or the same error, every time: in the same process, after other specs, on several threads at once and in another process with another environment. Whitespace and comments in the spec do not change the code (debug printouts, which name positions, aside).',
  ['programs', 'histories', 'schedules'], 'all specs and option sets, all histories of earlier generations, all layouts of the text',
  'The tests generate each spec once and look at that result alone; '+'a build that is reproducible needs every run to agree.',
  [B+'compiler', B+'coder', B+'semantics', B+'tokenizer.rs'], [('generation', B+'compiler/mod.rs'), ('collections iterated on the way to code', B+'coder, asg')], 'runtime monitoring: the real generator runs repeatedly on each spec, in several histories, threads and processes; a monitor compares the results token for token', 'Specs, histories and layouts are generated with seeds; threads are scheduled by the operating system.')
p('C28', 'A spec spread over imported files means what it means in one file',
  'Distributing the declarations of a spec over files that import one another, with aliases, along chains and in any order of items, yields the same generated types and coders as the spec in one file. A missing or unreadable file, a file that does not parse or has a semantic error, an item the file does not declare and files importing themselves in a circle are refused with an error that names them, without a panic.',
  ['programs', 'inputs'], 'all specs, all distributions of their declarations over files, all aliases',
  'The tests import a few items from one or two files.',
  [B+'semantics/convert/program', B+'import.rs'], [('resolution of imports', B+'semantics/convert/program/resolve.rs'), ('imported items', B+'semantics/convert/program/import.rs')], FRONT + '; the oracle compares the items generated from the files with those generated from the one spec, and the kind and name of errors with the mistake planted', 'Specs and distributions are generated with seeds. Two files declaring types of the same name are left out (their generated types collide).')
p('C30', 'The order in which types are declared makes no difference',
  'Putting the declarations of a spec into another order (types other than enums and bitfields, foreign imports and file imports anywhere; constants, enums and bitfields, which build on those before them, anywhere between these as long as they keep their order among each other) changes neither whether the spec is accepted nor the types and coders that are generated.',
  ['programs'], 'all specs, valid or not, and all orders of their declarations',
  'The tests hold each spec in one order, nearly always with each type declared before it is used.',
  [B+'semantics/convert/program/mod.rs', B+'semantics/convert/type_', B+'semantics/convert/field.rs', B+'asg/program.rs', B+'compiler'], [('passes over the declarations', B+'semantics/convert/program/mod.rs'), ('what is known of a type that is not converted yet', B+'semantics/convert/type_/mod.rs')], FRONT + '; the oracle compares acceptance and the items of generated code between orders of the same declarations', 'Specs and orders are generated with seeds. Which of several mistakes is reported may depend on the order and is not compared.')
p('C29', 'compile_spec writes the code of a valid spec, as the options ask for',
  'For a spec without mistakes compile_spec writes one file named after it into OUT_DIR, which holds exactly the code of that spec (formatted or not), compiles wherever include_spec! or include! puts it, gives every generated type the derives asked for and no others, async coders exactly when asked, and coders whose errors are anyhow or boxed as asked. For a spec with a mistake it returns an error that says what is wrong and writes no code.',
  ['programs', 'histories'], 'all specs, names and option sets',
  'The tests call compile_spec with the default options and look at whether the file compiles.',
  [B+'lib.rs', B+'compiler/mod.rs', 'protospec/src/lib.rs'], [('compile_spec', B+'lib.rs'), ('derives and options', B+'compiler/mod.rs')], MON + '; the real compile_spec writes files into a scratch OUT_DIR, a monitor compares them with the tokens of the spec; what options promise is probed by compiled code that uses it', 'Specs, names and option sets are generated with seeds.')
