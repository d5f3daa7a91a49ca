S = "Sampled (with shrinking), not exhaustive. "
claims = {
"E01": ("property-based testing: generated and enumerated operands against an independent x86-64 decoder", "exploration",
  "All register forms and all 16-bit immediates are enumerated, 32/64-bit immediates swept and sampled. Trusts the harness's own decoder (cross-checked with objdump)."),
"E02": ("property-based testing: generated and enumerated memory operands against an independent x86-64 decoder", "exploration",
  "All forms x registers x edge displacements enumerated, all other displacements sampled. Trusts the harness's own decoder (cross-checked with objdump)."),
"E03": ("property-based testing: metamorphic patching of the reported immediate", "exploration",
  "All registers x edge values enumerated, other value pairs sampled."),
"E04": ("property-based testing: exhaustive enumeration of registers and pairs against the Intel tables", "exploration",
  "The space is finite and enumerated completely."),
"E05": ("model-based testing: generated histories against a plain byte vector", "exploration",
  "Capacities 0..15 x lengths enumerated, operation histories sampled."),
"E06": ("property-based testing: generated instructions and register states carried out on the processor, against a reference model of their effect", "exploration",
  "All forms x registers x edge displacements enumerated, sequences and register states sampled. Trusts the processor it runs on."),
"M01": ("property-based testing: write/read round trip of generated records", "exploration", S + "All modelled code values are enumerated."),
"M02": ("property-based testing: differential against an independent Mach-O serializer", "exploration",
  S + "Trusts the harness's transcription of mach-o/loader.h, nlist.h and reloc.h."),
"M03": ("property-based testing: generated byte-swapped images against native ones", "exploration",
  S + "Trusts the harness's independent byte-swapping serializer."),
"M04": ("property-based testing / fuzzing: enumerated truncations and byte changes plus structured mutation, against an independent record classifier", "exploration",
  S + "Every truncation and every single-byte value of seed records is enumerated; debug and release arithmetic are both run."),
"M05": ("model-based testing: generated append histories against a plain list of strings", "exploration", S),
"M06": ("property-based testing: round trip of generated command streams in both byte orders", "exploration", S),
"M07": ("property-based testing: generated objects and generated assembly put through LLVM's assembler and linker, differential against llvm-objdump and llvm-nm", "exploration",
  S + "Trusts llvm-objdump 18 and llvm-nm 18."),
"O01": ("property-based testing: invariants of the written file over generated objects", "exploration",
  S + "All combinations of present/absent parts are enumerated. The file is read back by the harness's own Mach-O reader, not by the library's."),
"O02": ("model-based testing: generated objects against a reference layout of the sections", "exploration", S + "Combinations of present/absent parts are enumerated."),
"O03": ("model-based testing: generated objects against a reference symbol table", "exploration", S + "Combinations of present/absent parts are enumerated."),
"O04": ("model-based testing: generated objects against a reference relocation table", "exploration", S + "Combinations of present/absent parts are enumerated."),
"O05": ("fault injection over generated objects: sinks failing or accepting partially at enumerated positions", "fault_enumeration",
  "For each generated object a fault is injected at every byte position of small outputs and at sampled ones of large outputs; objects, records and programs are sampled."),
"O06": ("property-based testing: generated programs read by llvm-readobj and linked by ld64.lld, images compared with the reference model", "exploration",
  S + "Trusts llvm-readobj 18 and ld64.lld 18; programs stay within what the linker can place (32-bit label operands need low addresses)."),
"A01": ("property-based testing: generated programs against a reference model and an independent decoder", "exploration", S + "Register forms are enumerated. Trusts the harness's decoder (cross-checked with objdump)."),
"A02": ("property-based testing: generated data lines against a reference model", "exploration", "Units x string lengths, characters and small values are enumerated, other lines sampled."),
"A03": ("property-based testing: generated programs against a reference symbol model", "exploration", S),
"A04": ("property-based testing: generated programs and placements, relocations applied by an independent relocator", "exploration", S + "The relocator is the harness's own; O06 uses a real linker."),
"A05": ("property-based testing: generated numbers and notations against arbitrary-width arithmetic", "exploration", "Notations of edge values in every place are enumerated, other numbers sampled."),
"A06": ("property-based testing: metamorphic re-layout of generated programs", "exploration", S + "Each single variation is enumerated on a program with every kind of statement."),
"A07": ("property-based testing / fuzzing: grammar-based malformed lines and text-level edits of generated programs, run through at-asm, against an independent line reader", "exploration",
  S + "A list of malformed lines is enumerated at three positions."),
"A08": ("property-based testing: generated numbers around and far from every bound against arbitrary-width arithmetic", "exploration", "All boundaries in all places are enumerated, other numbers sampled."),
"A09": ("property-based testing: generated deliveries (read sizes, interruptions, splits) of generated programs, differential", "exploration", S),
"A10": ("fault injection over generated command lines: bad arguments, unreadable inputs, failing outputs, against a reference outcome", "fault_enumeration",
  S + "Each run happens in a scratch directory that is compared before and after; /dev/full and a file size limit stand for a full disk."),
"A11": ("property-based testing: metamorphic regrouping of generated programs, and a reference model", "exploration", S),
"A12": ("property-based testing and text fuzzing: generated programs against a reference model, edited texts against an independent line reader, and differential against NASM", "exploration",
  "Statement sequences up to length 4 over 11 kinds are enumerated (thorough: 5), others sampled. Trusts NASM 2.16 on the common subset."),
"A13": ("property-based testing: generated programs with one definition repeated or with similarly named labels, against a reference outcome", "exploration", S),
"A14": ("property-based testing: generated programs linked and carried out on the processor statement by statement, against a reference interpreter of the source", "exploration",
  S + "Trusts the processor it runs on and, in one part, ld64.lld 18."),
}
not_applicable = {}
