#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the list is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

ASM = ['peak/assembler/assembler.py', 'peak/assembler2/assembler.py']
p('A01', 'Assembling an instruction and disassembling it gives the instruction back',
  'For every ISA type built from enums, products, tuples, sums, tagged unions, bits and bit vectors, and every instruction of it, disassembling the assembled instruction returns an equal instruction. Every opcode has the assembler\'s declared width, whatever the bit vector family it is assembled into, and distinct instructions get distinct opcodes. Enum members with an explicit value are encoded as that value.',
  ['inputs', 'configurations'], 'all ADT shapes (nesting, sharing of member types, automatic/explicit/sparse enum values) x all instructions x both assemblers x bit vector families',
  'tests/test_assembler.py checks a handful of fixed ISAs; the guarantee ranges over arbitrary nestings, value choices and enum encodings.',
  ASM, [('per-kind assemble/disassemble closures', 'peak/assembler/assembler.py:_enum,_tuple,_sum,_field'), ('same for v2', 'peak/assembler2/assembler.py')],
  ['Assembler(isa).assemble / .disassemble / .width'])
p('A02', 'Opcode validity is exact and decoding an invalid opcode is rejected',
  'An opcode is reported valid exactly when every enum and every tag on its active path is one that assembling can produce (bits no active field uses are ignored). Disassembling an invalid opcode raises ValueError (the second assembler: an exception), and never returns an instruction. A valid opcode decodes to an instruction that agrees with the opcode on all bits its fields use.',
  ['inputs', 'configurations'], 'all ADT shapes x all bit patterns of the opcode width (exhaustively up to 10 bits, sampled beyond) x both assemblers',
  'The validator picks one of six strategies depending on the set of codes (ranges, one-hot, enumerations, multi-range); tests only reach a few sets and never compare with a model over all bit patterns.',
  ['peak/assembler/assembler_util.py', 'peak/assembler2/assembler_util.py'] + ASM, [('validator synthesis', 'peak/assembler/assembler_util.py:_gen_is_valid'), ('per-kind is_valid', 'peak/assembler/assembler.py')],
  ['Assembler.is_valid / .disassemble'])
p('A03', 'The encoding of a type does not depend on what was assembled before',
  'Width, layout, opcodes and validity of an ISA are functions of its definition alone. They are the same whichever other ISAs have been assembled earlier in the process, in whatever order, in every process whatever its hash seed, and in whatever family\'s bits and vectors the ISA is declared (as in a family closure).',
  ['histories', 'configurations'], 'all sequences of ISA types assembled in one process, all interpreter hash seeds, all families',
  'Assembler instances and validators are cached process-wide and sums hold their options in unordered sets; a test sees one history in one process.',
  ['peak/assembler/assembler_abc.py', 'peak/assembler/assembler_util.py', 'peak/assembler/assembler.py', 'peak/assembler2/assembler_abc.py', 'peak/assembler2/assembler_util.py', 'peak/assembler2/assembler.py'],
  [('instance cache', 'peak/assembler/assembler_abc.py:AssemblerMeta.__call__'), ('validator cache', 'peak/assembler/assembler_util.py:_validator_cache'), ('sorted options', 'peak/assembler/assembler.py:_sum')],
  ['Assembler(isa) observed in fresh processes'], [('_validator_cache', 'validators by opcode set', 'peak/assembler/assembler_util.py'), ('AssemblerMeta._cache', 'assembler instances', 'peak/assembler/assembler_abc.py')])
p('A04', 'Layouts describe where fields really are',
  'The published layout places the fields of a product or tuple disjointly so that they tile the whole word, and places tag and payload of a sum disjointly within the word. For every instruction the bits selected by a sub-assembler path (and its tag index) are exactly the encoding of the field (or tag) at that path.',
  ['inputs', 'configurations'], 'all ADT shapes x all field paths x all instructions',
  'Tests look at two-level layouts of fixed ISAs; offsets accumulate along arbitrary nesting paths.',
  ['peak/assembler/assembler.py', 'peak/assembler/assembler_abc.py'], [('layout construction', 'peak/assembler/assembler.py:_tuple,_sum'), ('offset accumulation', 'peak/assembler/assembler_abc.py:Sub')],
  ['Assembler.layout, .sub[...].idx, .sub[...].tag_idx, .tag_layout'])
p('A05', 'Tags of a sum are a bijection with its options',
  'For every sum or tagged union the tag codes are pairwise distinct, fit the tag width, round trip through tag assembly and disassembly, and are the tags that assembled instructions carry. Every other tag code is reported invalid and rejected with ValueError, and tag operations on non-sum types raise TypeError.',
  ['inputs', 'configurations'], 'all sums and tagged unions (including members sharing a type, single options, nested sums) x all tag codes',
  'Tests never enumerate invalid tag codes and only use a few sums.',
  ['peak/assembler/assembler.py'], [('tag functions', 'peak/assembler/assembler.py:_sum, assemble_tag, disassemble_tag, is_valid_tag')],
  ['Assembler.assemble_tag / disassemble_tag / is_valid_tag / tag_width'])
p('A06', 'Assembled ADT values behave like the ADT values they encode',
  'For every ADT value, the assembled value built from it, built from its fields, or wrapped around its opcode are equal; reading any field gives the assembled form of that field; matching a sum is true exactly for the active option and yields its value. Equality (and inequality) of assembled values, of assembled values with ADT values, and with opcodes is that of the ADT values.',
  ['inputs', 'configurations'], 'all ADT shapes x pairs of values x access paths x both assembled-ADT implementations',
  'Tests check fixed ADTs with a few values; every nesting combines constructor, accessor, padding and comparison paths differently.',
  ['peak/assembler/assembled_adt.py', 'peak/assembler2/assembled_adt.py', 'peak/assembler2/assembler.py'], [('field construction', 'peak/assembler/assembled_adt.py:_create_from_layout'), ('field access', 'peak/assembler/assembled_adt.py:_get'), ('comparison', 'peak/assembler/assembled_adt.py:__eq__')],
  ['AssembledADT[T, Assembler, BitVector](...), .from_fields, field access, ==, !='])
p('A07', 'Symbolic assembled values agree with concrete ones',
  'Validity, field access, sum matching and equality computed on a symbolic opcode become, for every concrete opcode substituted, the results computed on the concrete opcode.',
  ['inputs', 'configurations'], 'all ADT shapes x all opcodes (valid or not) x all field paths x both implementations',
  'Tests evaluate symbolic ADTs only through whole mapping problems; none compares the symbolic and concrete result over the opcode space.',
  ['peak/assembler/assembled_adt.py', 'peak/assembler/assembler_util.py', 'peak/assembler2/assembled_adt.py', 'peak/assembler2/assembler.py'], [('family generic operators', 'peak/assembler/assembled_adt.py:_get, __eq__'), ('family generic validators', 'peak/assembler/assembler_util.py:_gen_is_valid')],
  ['AssembledADT[T, Assembler, SMTBitVector]'])

p('F01', 'Rewriting a Peak program for the executable family preserves its meaning',
  'For every Peak class within the supported subset, calling the class compiled for the rewritten Python family (SSA, if-conversion, assembled ADTs) gives, for every history of inputs, the outputs and the state the plain Python family gives.',
  ['programs', 'inputs', 'histories'], 'all programs of the supported subset (nested ifs, early assignments, ADT inputs and outputs, registers, sub-components) x all input sequences',
  'Tests run a few fixed programs on a few inputs; correctness of the rewriting is about all control flow shapes and all paths.',
  ['peak/family.py', 'peak/features.py', 'peak/peak.py', 'peak/register.py'], [('rewrite pipeline', 'peak/family.py:_RewriterFamily.assemble,_StdMix'), ('constructors of the assembled family', 'peak/family.py:_AsmFamily')],
  ['fc.Py vs fc.PyX'])
p('F02', 'The symbolic semantics of a Peak program agrees with its execution',
  'For every Peak class, the output and next-state terms of the SMT family, with any concrete inputs and state substituted, evaluate to what executing the Python family on those inputs and state gives.',
  ['programs', 'inputs', 'histories'], 'all programs of the supported subset x all inputs and states',
  'The rewrite-rule machinery trusts these terms; tests check solved rules at best, never the terms themselves over the input space.',
  ['peak/family.py', 'peak/assembler/assembled_adt.py'], [('SMT family', 'peak/family.py:SMTFamily'), ('assembled ADTs', 'peak/assembler/assembled_adt.py')],
  ['fc.Py vs fc.SMT with substitution'])
p('F03', 'Generated hardware computes what the Python model computes',
  'For every Peak class in the hardware subset, the Verilog compiled from its Magma family, driven cycle by cycle after reset, produces on every cycle of every input sequence the outputs of the Python family called with the same inputs (ADTs passed in assembled form).',
  ['programs', 'inputs', 'histories'], 'all programs of the hardware subset x all input sequences from reset',
  'tests/test_magma.py compiles a few circuits and pokes a few vectors.',
  ['peak/family.py', 'peak/assembler/assembled_adt.py'], [('Magma family', 'peak/family.py:MagmaFamily'), ('Magma ADTs', 'peak/assembler/assembled_adt.py:MagmaADT')],
  ['Verilog simulation of fc.Magma'])
p('F04', 'Registers and memories obey their history semantics in every software family',
  'A register returns the value written by the latest enabled write (initially its init value), one call late; an attribute register reads back the last value assigned and rejects values of another type; a RAM cell is independent of every other cell and a ROM never changes. This holds after any history, and for the Python, rewritten and symbolic families alike.',
  ['histories', 'inputs', 'configurations'], 'all sequences of calls/reads/writes x types (bits, vectors, ADTs) x init values x enable/no-enable x families',
  'Tests call a register two or three times with one type.',
  ['peak/family.py', 'peak/register.py', 'peak/memory.py', 'peak/peak.py'], [('register generators', 'peak/family.py:_RegFamily.gen_register, gen_attr_register'), ('attribute protocol', 'peak/peak.py:Peak.__getattribute__, __setattr__'), ('memories', 'peak/memory.py')],
  ['gen_register(...), RAM, ROM'], [('_REG_CACHE', 'register classes by (family, type, init, has_enable)', 'peak/family.py')])
p('F05', 'Family closures are memoised per family and families compare lawfully',
  'Asking a family closure for the same family (and arguments) always returns the same class object and never runs the closure twice, different families or arguments get their own class, whatever the order of requests. Family objects are equal exactly when they are of the same kind with the same options, equality is symmetric and transitive, and equal families hash equal.',
  ['histories', 'configurations'], 'all sequences of closure requests over families, options and arguments; all pairs and triples of family objects',
  'Tests check one or two repeated requests.',
  ['peak/features.py', 'peak/family.py'], [('memo table', 'peak/features.py:family_closure.__call__'), ('equality and hash', 'peak/family.py:AbstractFamily, _AsmFamily, _RewriterFamily')],
  ['family_closure objects, family ==, hash'])
p('F06', 'The declared interface of a Peak class is exactly its call signature',
  'input_t is a product listing exactly the call parameters with their annotated types in order, output_t lists exactly the declared outputs (by name with name_outputs, by position otherwise), in every family. Missing or extra annotations are rejected at class creation, and with type checking enabled a call returns normally exactly when number and types of the results match the declaration.',
  ['programs', 'inputs'], 'all call signatures (arity, names, types, const modifiers, naming styles) x all result shapes',
  'Tests use a few signatures and one wrong result.',
  ['peak/features.py', 'peak/peak.py', 'peak/family.py'], [('interface extraction', 'peak/features.py:gen_input_t, gen_output_t, name_outputs'), ('checked calls', 'peak/features.py:typecheck'), ('metaclass', 'peak/peak.py:PeakMeta')],
  ['cls.input_t, cls.output_t, call'])
p('F07', 'IR instructions compute the functions they were defined with',
  'An instruction added to an IR from an input interface, an output interface and a function has exactly those interfaces in every family and, called with any inputs, returns what the function returns for that family. Re-adding an existing name is rejected and leaves the IR unchanged.',
  ['programs', 'inputs', 'histories'], 'all interfaces x functions x inputs x sequences of additions',
  'tests/test_ir.py adds two instructions.',
  ['peak/ir.py'], [('source synthesis', 'peak/ir.py:IR.add_peak_instruction')], ['IR.instructions[name]'])

p('F08', 'A wrapper with a disassembler gives every field the bits its layout names',
  'A circuit wrapped by wrap_with_disassembler takes an instruction word of the given width in place of each instruction input and behaves, for every word, layout and history of inputs, as the circuit does when each field of the instruction is the bits of the word at the place the layout gives it; all other ports are unchanged. Wrapping again with another layout gives another wrapper.',
  ['inputs', 'histories'], 'all instruction types x layouts x widths x words x further wrappers of the same circuit',
  'tests/test_magma.py builds one wrapper and does not run it.',
  ['peak/rtl_utils.py'], [('wiring', 'peak/rtl_utils.py:wrap_with_disassembler')], ['ports of the wrapper'])

p('B01', 'Black box discovery finds exactly the black boxes of a component',
  'For every component hierarchy the discovered map contains exactly one entry per reachable outermost black box instance path, looking a path up returns that very instance, and non-Peak objects and bad paths are rejected with ValueError.',
  ['programs'], 'all component trees (depth, sharing, mixed fields, black boxes inside black boxes)',
  'Tests use two small hierarchies.',
  ['peak/black_box.py'], [('traversal', 'peak/black_box.py:get_black_boxes, get_black_box')], ['get_black_boxes, get_black_box'])
p('B02', 'A symbolic black box records its inputs and returns the outputs set',
  'Under the symbolic family, calling a black box (of at least one input) returns exactly the outputs last set and records the inputs of the last call in declaration order, however positional or keyword arguments are written. Out of order use (call before outputs, read before call) and wrong arities are rejected with ValueError, after any history of use, and instances do not influence one another.',
  ['histories', 'inputs'], 'all sequences of set/call/read operations on several instances x interfaces',
  'Tests do one set-call-read sequence with positional arguments.',
  ['peak/black_box.py', 'peak/family.py'], [('call replacement', 'peak/black_box.py:BlackBox.create_call'), ('installation', 'peak/family.py:_BBFamily')], ['bb._set_outputs, bb(...), bb._get_inputs'])

p('L01', 'Floating point operations round as the requested mode says',
  'For every format and rounding mode, add, subtract, multiply, divide, fused multiply-add and square root on finite inputs return the correctly rounded exact result of that mode (nearest-ties-to-away as the wrapped number library does it; formats without subnormals: results in the normal range), the predicates and comparisons decide exactly what they say, and the component with a rounding mode input, the component with that mode built in, and the rewritten family all give the same result (NaNs compare equal).',
  ['inputs', 'configurations'], 'all small formats x five rounding modes x operations x operand bit patterns x executable families',
  'No test executes a rounding mode other than the default.',
  ['peak/float.py'], [('operation generators', 'peak/float.py:gen_binary, gen_binary_bit, gen_unary, fp_fma, const_rm'), ('mode translation', 'peak/float.py:RoudningMode_utils')], ['float_lib_gen(e, m).Op_fc'])
p('L02', 'Rounding mode encodings convert losslessly',
  'Converting a rounding mode to bits and back, and to the underlying library mode and back, is the identity, in every family, and the three bit codes outside the enum decode to the last mode.',
  ['inputs', 'configurations'], 'all modes and 3-bit codes x families', 'Tests convert nothing.',
  ['peak/float.py'], [('conversions', 'peak/float.py:RoudningMode_utils')], ['RoudningMode_utils(family)'])

p('E01', 'Bitfield encodings are faithful',
  'For every instruction type of integer enums, products, tagged unions and sums, with or without declared tags and bitfield offset (offsets declared by the outer types only), encoding packs every field at its declared position in either justification, never exceeds the declared size, and gives distinct instructions distinct words. Sums are encoded with their declared tags, members of tagged unions are numbered in the order of their declaration, and the options of sums without declared tags are numbered from zero: the same numbers, and so the same words, in every process.',
  ['inputs', 'configurations'], 'all instruction types of the supported kind x all instructions x both justifications x bitfield offsets',
  'tests/test_bitfield.py encodes three instructions.',
  ['peak/bitfield.py'], [('packing', 'peak/bitfield.py:encode, size, sumsize')], ['encode, size'])
p('E02', 'The legacy automatic assembler round trips',
  'For every ISA the deprecated automatic assembler supports, disassembling an assembled instruction returns an equal instruction, opcodes have the declared width, distinct instructions get distinct opcodes, and its layout selects the encodings of the fields.',
  ['inputs', 'configurations'], 'all ISAs of enums, products, sums and vectors x all instructions',
  'No test in the suite uses it.',
  ['peak/auto_assembler.py'], [('generator', 'peak/auto_assembler.py:generate_assembler')], ['generate_assembler(isa)'])

MAP = ['peak/mapper/mapper.py', 'peak/mapper/utils.py']
p('M01', 'Every rewrite rule the mapper returns is correct',
  'Whenever solving an IR instruction against an architecture returns a rule, then for every value of the IR inputs and of the architecture inputs the rule leaves free, executing the architecture on the inputs the rule builds gives on every bound output the value the IR instruction gives. This holds for both formula styles, both solving strategies and both index encodings.',
  ['programs', 'inputs', 'configurations'], 'all architecture/IR pairs (small widths: decided by exhaustive execution) x all mapper options',
  'Tests map a few instructions and ask the same SMT machinery to verify them; the guarantee is about all programs and an independent oracle.',
  MAP + ['peak/mapper/index_var.py', 'peak/mapper/formula_constructor.py'], [('formula construction', 'peak/mapper/mapper.py:IRMapper.__init__'), ('rule extraction', 'peak/mapper/mapper.py:rr_from_solver'), ('CEGIS loop', 'peak/mapper/mapper.py:external_loop_solve')],
  ['ArchMapper(...).process_ir_instruction(...).solve(...) executed in fc.Py'])
p('M02', 'The mapper finds a rule whenever one exists',
  'For an architecture with at least one Const input and an IR instruction without sums: when some binding of IR inputs to architecture inputs (each used exactly once), choice of form and constants makes the architecture compute the IR instruction, solving returns a rule; when none exists it returns None.',
  ['programs', 'configurations'], 'all small architecture/IR pairs, with the rule space enumerated exhaustively x all mapper options',
  'Tests only know the answer for hand-made examples.',
  MAP, [('binding enumeration', 'peak/mapper/utils.py:create_bindings'), ('formula construction', 'peak/mapper/mapper.py:IRMapper.__init__')],
  ['solve(...) is None'])
p('M03', 'Verifying a rule accepts exactly the correct rules',
  'For every rule, hand written, solved or mutated, verify returns no counterexample exactly when the rule is correct for every input, and a returned counterexample names every free input and really makes IR and architecture disagree on a bound output.',
  ['programs', 'inputs'], 'all rules over small architectures (correct ones, wrong constants, swapped inputs, wrong outputs)',
  'Tests verify a dozen fixed rules.',
  MAP, [('verification', 'peak/mapper/mapper.py:RewriteRule.verify'), ('input construction', 'peak/mapper/mapper.py:RewriteRule.build_inputs')],
  ['RewriteRule.verify'])
p('M04', 'Path constraints are respected',
  'For an architecture with at least one Const input and an IR instruction without sums, rules solved under path constraints give each constrained architecture path one of its allowed values, never bind it to an IR input, and exist whenever a rule with an allowed value exists (for free paths: when the rule works for all allowed values). Constraints on paths that are no leaves are rejected.',
  ['programs', 'configurations'], 'all small architecture/IR pairs x constraint sets (const and free paths, enum and vector leaves) x mapper options',
  'Tests constrain one offset of one architecture and only ask whether a rule exists.',
  ['peak/mapper/mapper.py'], [('constraint handling', 'peak/mapper/mapper.py:ArchMapper.__init__, IRMapper.__init__, rr_from_solver')],
  ['ArchMapper(path_constraints=...)'])
p('M05', 'Rule bindings survive serialisation',
  'Reading back the serialised bindings of a rule, directly or through JSON where its paths are JSON values, yields a rule with the same bindings and the same behaviour, for every kind of leaf (bits, vectors, enums, unbound inputs and outputs).',
  ['inputs', 'configurations'], 'all rules over generated interfaces', 'One test round trips rules of one architecture.',
  ['peak/mapper/mapper.py'], [('serialisation', 'peak/mapper/mapper.py:RewriteRule.serialize_bindings, read_serialized_bindings')],
  ['serialize_bindings, read_serialized_bindings'])
p('M06', 'Input and output bindings are enumerated completely and without repetition',
  'The bindings generated for two interfaces are exactly the maps from architecture leaves to IR leaves of the same type or nothing that use every IR leaf exactly once, each listed once; there are none when some IR leaf has no partner.',
  ['inputs'], 'all pairs of flat interfaces', 'Tests count the bindings of a few interfaces.',
  ['peak/mapper/utils.py'], [('enumeration', 'peak/mapper/utils.py:create_bindings')], ['create_bindings'])
p('M07', 'Index variables and formula builders mean exactly what they encode',
  'For every number of entries, each index has its own code that fits the variable and decodes back to it, all other codes are rejected, the validity condition holds for exactly those codes and exactly one match condition holds for each valid code. And, Or and Implies trees translate to terms with the truth table of the tree.',
  ['inputs', 'configurations'], 'all entry counts x all codes x both encodings; all formula trees x all assignments', 'Neither is tested directly.',
  ['peak/mapper/index_var.py', 'peak/mapper/formula_constructor.py'], [('encodings', 'peak/mapper/index_var.py'), ('builders', 'peak/mapper/formula_constructor.py')],
  ['OneHot, Binary, And, Or, Implies'])
p('M08', 'Forms decompose a type into its sum-of-products exactly',
  'The forms of an assembled type are exactly the combinations of choices of its sums, each choice recorded at its path; each form\'s leaves are exactly the leaves reachable under those choices, and its value carries those leaves under those tags. For a given value the forms read its leaves, tags and matches correctly.',
  ['inputs', 'configurations'], 'all ADT shapes x all opcodes', 'Tests check the number of forms of a few types.',
  ['peak/mapper/utils.py'], [('decomposition', 'peak/mapper/utils.py:SMTForms')], ['SMTForms()'])
p('M09', 'Rules deliver values to the right inputs',
  'Building the inputs of a rule puts, for every assignment of the IR leaves and free architecture leaves, each IR value at its IR path and at every architecture path bound to it, constants at theirs and free values at theirs, in every software family (Python, rewritten, symbolic); assignments with missing or extra paths are rejected.',
  ['inputs', 'configurations'], 'all interface shapes (nested products, tuples, sums, tagged unions, enums) x bindings x leaf values x families', 'Only exercised through verify on a few rules.',
  MAP, [('assembly of the inputs', 'peak/mapper/mapper.py:RewriteRule.build_inputs'), ('simplification', 'peak/mapper/utils.py:SimplifyBinding')],
  ['RewriteRule.build_inputs, get_input_paths'])
p('M10', 'Multi-instruction mapping finds exactly the programs that exist',
  'For an architecture over bits and bit vectors with exactly one Const input, multi-instruction mapping over N architecture instructions reports a solution exactly when some assignment of instructions and wiring, using each IR input once, computes the IR instruction, and the wiring and instructions it reports compute it.',
  ['programs', 'configurations'], 'all small architecture/IR pairs x N x index encodings x both formula variants, against exhaustive search', 'Tests print solutions for fixed examples.',
  ['peak/mapper/multi.py'], [('formula', 'peak/mapper/multi.py:Multi'), ('loop', 'peak/mapper/mapper.py:external_loop_solve')], ['Multi(...)(...)'])
p('M11', 'The exists-forall loop decides the quantified problem',
  'For every quantifier free formula split into existential and universal variables, the refinement loop returns None exactly when no existential choice works for all universal values, and otherwise ends with an existential choice that works, or says it ran out of iterations.',
  ['inputs', 'configurations'], 'all small formulas x variable splits x initial vectors x iteration limits, against truth tables', 'Only exercised inside mapping tests.',
  ['peak/mapper/mapper.py'], [('loop', 'peak/mapper/mapper.py:external_loop_solve, _gen_initial')], ['external_loop_solve'])
p('M12', 'Rules over black boxes hold whatever the black boxes compute',
  'A rule solved or accepted by verification for components containing black boxes is correct for every function the black boxes might compute (equal black boxes computing the same function), a rule that is correct for all of them is accepted, and solving finds a rule whenever one exists that is correct for all of them.',
  ['programs', 'inputs'], 'all small components with black boxes x all interpretations of the black boxes (enumerated) x all inputs', 'Tests map two floating point examples.',
  ['peak/mapper/mapper.py', 'peak/black_box.py'], [('functional consistency', 'peak/mapper/mapper.py:update_with_bb')], ['solve, verify with black boxes'])

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
for q in P:
    assert len(q['title']) <= 80, (q['id'], len(q['title']))
with open('properties.jsonl', 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')
print(len(P))
