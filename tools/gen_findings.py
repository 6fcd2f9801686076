"""KNOWN_FINDINGS.txt: one line per repaired defect (fixed entries suppress nothing)."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = [
 ('A02', 'fix: opcodes outside every range of a multi-range validator are invalid', 'every opcode was reported valid for enums or tags validated by several ranges'),
 ('A03', 'fix: key the validator cache on the width as well as the opcodes', 'validity of {0,1,2} in 2 bits depended on whether {0,1,2} of another width was assembled before'),
 ('A05', "fix: disassemble_tag raises ValueError instead of NameError on an invalid tag", 'disassemble_tag of an invalid tag raised NameError'),
 ('A06', 'fix: from_fields accepts zero width fields and tags', 'from_fields failed with fields or tags of no bits'),
 ('L01', 'fix: use the hwtypes names of the rounding modes in the variable rounding mode ops', 'RDN, RUP and RMM raised AttributeError'),
 ('L01', 'fix: const_rm Fma refers to the existing FMA closure', 'const_rm(...).Fma raised NameError'),
 ('L01', 'fix: drop asserts on unselected branches from the rounding mode ops', 'rounding mode ops failed in the rewritten families'),
 ('L01', 'fix: the fp_is_* float ops return a Bit', 'the predicates failed or returned no Bit'),
 ('B02', 'fix: black boxes record keyword inputs in declaration order', 'inputs passed by keyword were recorded in call order'),
 ('M09', 'fix: RewriteRule detects unbound Const arch paths', 'unbound Const paths of the architecture were accepted'),
 ('M04', 'fix: rewrite rules bind constrained non Const paths to one of their constraints', 'constrained free paths were left unbound, so rules were wrong outside the constraint'),
 ('M04', 'fix: path constraints on Enum leaves are compared as bitvectors', 'constraints on Enum leaves raised'),
 ('M01', 'fix: read Consts that are also universally quantified from their existential copy', 'IR Consts bound to overlapping arch Consts gave wrong rules'),
 ('F05', 'fix: a family is not equal to families of its subclasses', 'family equality was not symmetric'),
 ('M08', 'fix: SMTForms of an existing TaggedUnion value reads members by name', 'SMTForms of a given TaggedUnion value raised'),
 ('F06', 'fix: typecheck rejects a wrong number of outputs', 'checked calls returning too few or many values passed'),
 ('E01', 'fix: size of an Enum fits its largest value', 'the size of an Enum counted members instead of fitting its largest value'),
 ('A01', 'fix: assemble negative signed vectors as their bits', 'a negative signed field overwrote the fields above it with ones'),
 ('A01', 'fix: assemble bits and signed vectors in every family', 'negative signed vectors could not be assembled symbolically by the second assembler'),
 ('A05', 'fix: disassemble_tag looks tags up by their value', 'disassemble_tag of a valid tag raised KeyError'),
 ('A03', 'fix: tags of sums of sums do not depend on set order', 'tags of a sum with a sum among its options changed from process to process'),
 ('A07', 'fix: build assembled values from signed fields symbolically', 'from_fields with a signed field raised TypeError in the SMT family'),
 ('A06', 'fix: build assembled values from both signed and unsigned fields (v2)', 'from_fields of the second implementation failed when signed and unsigned fields are mixed'),
    ('A07', 'fix: assembler2 clears the bits no field occupies in from_fields', 'symbolic values the second implementation built from fields had free bits where no field is, so they were not equal to assembled values'),
    ('A01', 'fix: validity of an opcode does not depend on the signedness of its type', 'opcodes assembled into signed vectors were reported invalid and could not be disassembled (ranges of codes were compared as signed numbers)'),
    ('A04', 'fix: sub assemblers have as many entries as they list', 'len() of the sub assembler of a TaggedUnion was less than its number of fields when some have the same type'),
    ('F04', 'fix: registers of the Python family accept any adt', 'registers of product, tuple and union types could not be created in the Python family'),
    ('E01', 'fix: bitfields of negative signed vectors are their bits', 'encoding a negative signed vector gave a negative word that overwrote the other fields'),
    ('E02', 'fix: sums of the legacy assembler accept bits', 'assembling a Sum whose option is Bit raised AttributeError'),
    ('M02', 'fix: simple formulas map nested outputs', 'mapping with simple formulas raised KeyError when an output is a product or tuple'),
    ('M03', 'fix: rules can bind an ir input to multiple arch inputs', 'building the inputs of (or verifying) a rule that uses an IR input twice raised AssertionError'),
    ('M03', 'fix: inputs of rules with sums are built in every family', 'verifying a rule that takes a bit vector option of a Sum raised KeyError'),
    ('M04', 'fix: constraints of paths that no binding uses do not hide wrong rules', 'simple formulas accepted any rule when a constrained free path occurs in forms without bindings only'),
    ('M05', 'fix: free inputs of rules are looked up by the paths the rule was checked with', 'asking a rule for its inputs raised KeyError when a free arch input is a bit vector option of a Sum declared in the closure'),
    ('M10', 'fix: multi instruction solutions are read while the solver exists', 'asking a multi instruction solution for its contents raised AttributeError'),
    ('F03', 'fix: hardware adt values accept values of ports as fields', 'building an adt from an adt field of an input port raised TypeError in the Magma family'),
    ('F05', 'fix: assembled families are not equal to families of their subclasses', 'SMT, PyX and Magma families were equal to families of any subclass (which hash and behave differently), so equality was not transitive and closures were shared'),
    ('B01', 'fix: black boxes of a component are not remembered when it changes', 'get_black_boxes and get_black_box returned former sub components (or a map the caller had changed) after a component was modified'),
    ('L02', 'fix: rounding mode conversions work in the Python family', 'from_rm and to_rm raised AttributeError and TypeError for every mode and code in the Python family'),
    ('E01', 'fix: bitfield encodings of sums do not depend on set order', 'words of sums without declared tags changed from process to process'),
    ('E01', 'fix: bitfields of tagged unions number members as declared', 'members of a tagged union with the same type had the same word'),
    ('A03', 'fix: tags of sums do not depend on the family that declares them', 'a Sum declared in a family closure had other tags in the SMT and Magma families than in the Python family'),
    ('A01', "fix: don't enumerate the range between the opcodes of an enum", 'the assemblers ran out of memory for enums with large sparse codes'),
    ('E01', 'fix: size of fields of more than 32 bits in bitfield', 'enum members and tags above 2**32 were given 32 bits, and overwrote the fields next to them'),
    ('F01', 'fix: values of the second implementation have only the attributes their type has', 'hasattr of a value of the second implementation raised TypeError, so that it could not be given to a register'),
 ('F07', 'fix: IR instructions may have an input called family', 'the function of an instruction with an input called family was given that input as the family'),
]
import sys
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
by = {l.split(' ', 1)[1]: l.split(' ', 1)[0] for l in log}
lines = ['# Findings. "fixed" entries record repaired defects and suppress nothing.']
for pid, subj, what in FIX:
    lines.append(f'fixed: property={pid} {by[subj]} {what}')
missing = [s for s in by if s.startswith('fix:') and s not in {f[1] for f in FIX}]
if missing:
    sys.exit(f'not listed: {missing}')
open(f'{V}/KNOWN_FINDINGS.txt', 'w').write('\n'.join(lines) + '\n')
