package peers

// Scripts of messages: a, A, b, B define a table (a is 3, b is 4; lower case
// with a counter, upper case without), s, S select table a or b, k, K
// acknowledge it, h and f are control messages, u, U, i, I updates of the four
// types. Each script ends in four updates.

func vfC19_script_0()   { vfUnroll(); vfScript() }                        //
func vfC19_script_1()   { vfUnroll(); vfScript('a') }                     // a
func vfC19_script_2()   { vfUnroll(); vfScript('A') }                     // A
func vfC19_script_3()   { vfUnroll(); vfScript('b') }                     // b
func vfC19_script_4()   { vfUnroll(); vfScript('B') }                     // B
func vfC19_script_5()   { vfUnroll(); vfScript('s') }                     // s
func vfC19_script_6()   { vfUnroll(); vfScript('S') }                     // S
func vfC19_script_7()   { vfUnroll(); vfScript('k') }                     // k
func vfC19_script_8()   { vfUnroll(); vfScript('K') }                     // K
func vfC19_script_9()   { vfUnroll(); vfScript('h') }                     // h
func vfC19_script_10()  { vfUnroll(); vfScript('f') }                     // f
func vfC19_script_11()  { vfUnroll(); vfScript('u') }                     // u
func vfC19_script_12()  { vfUnroll(); vfScript('U') }                     // U
func vfC19_script_13()  { vfUnroll(); vfScript('i') }                     // i
func vfC19_script_14()  { vfUnroll(); vfScript('I') }                     // I
func vfC19_script_15()  { vfUnroll(); vfScript('a', 'a') }                // aa
func vfC19_script_16()  { vfUnroll(); vfScript('a', 'A') }                // aA
func vfC19_script_17()  { vfUnroll(); vfScript('a', 'b') }                // ab
func vfC19_script_18()  { vfUnroll(); vfScript('a', 'B') }                // aB
func vfC19_script_19()  { vfUnroll(); vfScript('a', 's') }                // as
func vfC19_script_20()  { vfUnroll(); vfScript('a', 'S') }                // aS
func vfC19_script_21()  { vfUnroll(); vfScript('a', 'k') }                // ak
func vfC19_script_22()  { vfUnroll(); vfScript('a', 'K') }                // aK
func vfC19_script_23()  { vfUnroll(); vfScript('a', 'h') }                // ah
func vfC19_script_24()  { vfUnroll(); vfScript('a', 'f') }                // af
func vfC19_script_25()  { vfUnroll(); vfScript('a', 'u') }                // au
func vfC19_script_26()  { vfUnroll(); vfScript('a', 'U') }                // aU
func vfC19_script_27()  { vfUnroll(); vfScript('a', 'i') }                // ai
func vfC19_script_28()  { vfUnroll(); vfScript('a', 'I') }                // aI
func vfC19_script_29()  { vfUnroll(); vfScript('A', 'a') }                // Aa
func vfC19_script_30()  { vfUnroll(); vfScript('A', 'A') }                // AA
func vfC19_script_31()  { vfUnroll(); vfScript('A', 'b') }                // Ab
func vfC19_script_32()  { vfUnroll(); vfScript('A', 'B') }                // AB
func vfC19_script_33()  { vfUnroll(); vfScript('A', 's') }                // As
func vfC19_script_34()  { vfUnroll(); vfScript('A', 'S') }                // AS
func vfC19_script_35()  { vfUnroll(); vfScript('A', 'k') }                // Ak
func vfC19_script_36()  { vfUnroll(); vfScript('A', 'K') }                // AK
func vfC19_script_37()  { vfUnroll(); vfScript('A', 'h') }                // Ah
func vfC19_script_38()  { vfUnroll(); vfScript('A', 'f') }                // Af
func vfC19_script_39()  { vfUnroll(); vfScript('A', 'u') }                // Au
func vfC19_script_40()  { vfUnroll(); vfScript('A', 'U') }                // AU
func vfC19_script_41()  { vfUnroll(); vfScript('A', 'i') }                // Ai
func vfC19_script_42()  { vfUnroll(); vfScript('A', 'I') }                // AI
func vfC19_script_43()  { vfUnroll(); vfScript('b', 'a') }                // ba
func vfC19_script_44()  { vfUnroll(); vfScript('b', 'A') }                // bA
func vfC19_script_45()  { vfUnroll(); vfScript('b', 'b') }                // bb
func vfC19_script_46()  { vfUnroll(); vfScript('b', 'B') }                // bB
func vfC19_script_47()  { vfUnroll(); vfScript('b', 's') }                // bs
func vfC19_script_48()  { vfUnroll(); vfScript('b', 'S') }                // bS
func vfC19_script_49()  { vfUnroll(); vfScript('b', 'k') }                // bk
func vfC19_script_50()  { vfUnroll(); vfScript('b', 'K') }                // bK
func vfC19_script_51()  { vfUnroll(); vfScript('b', 'h') }                // bh
func vfC19_script_52()  { vfUnroll(); vfScript('b', 'f') }                // bf
func vfC19_script_53()  { vfUnroll(); vfScript('b', 'u') }                // bu
func vfC19_script_54()  { vfUnroll(); vfScript('b', 'U') }                // bU
func vfC19_script_55()  { vfUnroll(); vfScript('b', 'i') }                // bi
func vfC19_script_56()  { vfUnroll(); vfScript('b', 'I') }                // bI
func vfC19_script_57()  { vfUnroll(); vfScript('B', 'a') }                // Ba
func vfC19_script_58()  { vfUnroll(); vfScript('B', 'A') }                // BA
func vfC19_script_59()  { vfUnroll(); vfScript('B', 'b') }                // Bb
func vfC19_script_60()  { vfUnroll(); vfScript('B', 'B') }                // BB
func vfC19_script_61()  { vfUnroll(); vfScript('B', 's') }                // Bs
func vfC19_script_62()  { vfUnroll(); vfScript('B', 'S') }                // BS
func vfC19_script_63()  { vfUnroll(); vfScript('B', 'k') }                // Bk
func vfC19_script_64()  { vfUnroll(); vfScript('B', 'K') }                // BK
func vfC19_script_65()  { vfUnroll(); vfScript('B', 'h') }                // Bh
func vfC19_script_66()  { vfUnroll(); vfScript('B', 'f') }                // Bf
func vfC19_script_67()  { vfUnroll(); vfScript('B', 'u') }                // Bu
func vfC19_script_68()  { vfUnroll(); vfScript('B', 'U') }                // BU
func vfC19_script_69()  { vfUnroll(); vfScript('B', 'i') }                // Bi
func vfC19_script_70()  { vfUnroll(); vfScript('B', 'I') }                // BI
func vfC19_script_71()  { vfUnroll(); vfScript('k', 'a') }                // ka
func vfC19_script_72()  { vfUnroll(); vfScript('k', 'A') }                // kA
func vfC19_script_73()  { vfUnroll(); vfScript('k', 'b') }                // kb
func vfC19_script_74()  { vfUnroll(); vfScript('k', 'B') }                // kB
func vfC19_script_75()  { vfUnroll(); vfScript('k', 's') }                // ks
func vfC19_script_76()  { vfUnroll(); vfScript('k', 'S') }                // kS
func vfC19_script_77()  { vfUnroll(); vfScript('k', 'u') }                // ku
func vfC19_script_78()  { vfUnroll(); vfScript('k', 'U') }                // kU
func vfC19_script_79()  { vfUnroll(); vfScript('k', 'i') }                // ki
func vfC19_script_80()  { vfUnroll(); vfScript('k', 'I') }                // kI
func vfC19_script_81()  { vfUnroll(); vfScript('K', 'a') }                // Ka
func vfC19_script_82()  { vfUnroll(); vfScript('K', 'A') }                // KA
func vfC19_script_83()  { vfUnroll(); vfScript('K', 'b') }                // Kb
func vfC19_script_84()  { vfUnroll(); vfScript('K', 'B') }                // KB
func vfC19_script_85()  { vfUnroll(); vfScript('K', 's') }                // Ks
func vfC19_script_86()  { vfUnroll(); vfScript('K', 'S') }                // KS
func vfC19_script_87()  { vfUnroll(); vfScript('K', 'u') }                // Ku
func vfC19_script_88()  { vfUnroll(); vfScript('K', 'U') }                // KU
func vfC19_script_89()  { vfUnroll(); vfScript('K', 'i') }                // Ki
func vfC19_script_90()  { vfUnroll(); vfScript('K', 'I') }                // KI
func vfC19_script_91()  { vfUnroll(); vfScript('h', 'a') }                // ha
func vfC19_script_92()  { vfUnroll(); vfScript('h', 'A') }                // hA
func vfC19_script_93()  { vfUnroll(); vfScript('h', 'b') }                // hb
func vfC19_script_94()  { vfUnroll(); vfScript('h', 'B') }                // hB
func vfC19_script_95()  { vfUnroll(); vfScript('h', 's') }                // hs
func vfC19_script_96()  { vfUnroll(); vfScript('h', 'S') }                // hS
func vfC19_script_97()  { vfUnroll(); vfScript('h', 'u') }                // hu
func vfC19_script_98()  { vfUnroll(); vfScript('h', 'U') }                // hU
func vfC19_script_99()  { vfUnroll(); vfScript('h', 'i') }                // hi
func vfC19_script_100() { vfUnroll(); vfScript('h', 'I') }                // hI
func vfC19_script_101() { vfUnroll(); vfScript('f', 'a') }                // fa
func vfC19_script_102() { vfUnroll(); vfScript('f', 'A') }                // fA
func vfC19_script_103() { vfUnroll(); vfScript('f', 'b') }                // fb
func vfC19_script_104() { vfUnroll(); vfScript('f', 'B') }                // fB
func vfC19_script_105() { vfUnroll(); vfScript('f', 's') }                // fs
func vfC19_script_106() { vfUnroll(); vfScript('f', 'S') }                // fS
func vfC19_script_107() { vfUnroll(); vfScript('f', 'u') }                // fu
func vfC19_script_108() { vfUnroll(); vfScript('f', 'U') }                // fU
func vfC19_script_109() { vfUnroll(); vfScript('f', 'i') }                // fi
func vfC19_script_110() { vfUnroll(); vfScript('f', 'I') }                // fI
func vfC19_script_111() { vfUnroll(); vfScript('a', 'a', 'a') }           // aaa
func vfC19_script_112() { vfUnroll(); vfScript('a', 'a', 'A') }           // aaA
func vfC19_script_113() { vfUnroll(); vfScript('a', 'a', 'b') }           // aab
func vfC19_script_114() { vfUnroll(); vfScript('a', 'a', 'B') }           // aaB
func vfC19_script_115() { vfUnroll(); vfScript('a', 'a', 's') }           // aas
func vfC19_script_116() { vfUnroll(); vfScript('a', 'a', 'S') }           // aaS
func vfC19_script_117() { vfUnroll(); vfScript('a', 'a', 'k') }           // aak
func vfC19_script_118() { vfUnroll(); vfScript('a', 'a', 'K') }           // aaK
func vfC19_script_119() { vfUnroll(); vfScript('a', 'a', 'h') }           // aah
func vfC19_script_120() { vfUnroll(); vfScript('a', 'a', 'f') }           // aaf
func vfC19_script_121() { vfUnroll(); vfScript('a', 'a', 'u') }           // aau
func vfC19_script_122() { vfUnroll(); vfScript('a', 'a', 'U') }           // aaU
func vfC19_script_123() { vfUnroll(); vfScript('a', 'a', 'i') }           // aai
func vfC19_script_124() { vfUnroll(); vfScript('a', 'a', 'I') }           // aaI
func vfC19_script_125() { vfUnroll(); vfScript('a', 'A', 'a') }           // aAa
func vfC19_script_126() { vfUnroll(); vfScript('a', 'A', 'A') }           // aAA
func vfC19_script_127() { vfUnroll(); vfScript('a', 'A', 'b') }           // aAb
func vfC19_script_128() { vfUnroll(); vfScript('a', 'A', 'B') }           // aAB
func vfC19_script_129() { vfUnroll(); vfScript('a', 'A', 's') }           // aAs
func vfC19_script_130() { vfUnroll(); vfScript('a', 'A', 'S') }           // aAS
func vfC19_script_131() { vfUnroll(); vfScript('a', 'A', 'k') }           // aAk
func vfC19_script_132() { vfUnroll(); vfScript('a', 'A', 'K') }           // aAK
func vfC19_script_133() { vfUnroll(); vfScript('a', 'A', 'h') }           // aAh
func vfC19_script_134() { vfUnroll(); vfScript('a', 'A', 'f') }           // aAf
func vfC19_script_135() { vfUnroll(); vfScript('a', 'A', 'u') }           // aAu
func vfC19_script_136() { vfUnroll(); vfScript('a', 'A', 'U') }           // aAU
func vfC19_script_137() { vfUnroll(); vfScript('a', 'A', 'i') }           // aAi
func vfC19_script_138() { vfUnroll(); vfScript('a', 'A', 'I') }           // aAI
func vfC19_script_139() { vfUnroll(); vfScript('a', 'b', 'a') }           // aba
func vfC19_script_140() { vfUnroll(); vfScript('a', 'b', 'A') }           // abA
func vfC19_script_141() { vfUnroll(); vfScript('a', 'b', 'b') }           // abb
func vfC19_script_142() { vfUnroll(); vfScript('a', 'b', 'B') }           // abB
func vfC19_script_143() { vfUnroll(); vfScript('a', 'b', 's') }           // abs
func vfC19_script_144() { vfUnroll(); vfScript('a', 'b', 'S') }           // abS
func vfC19_script_145() { vfUnroll(); vfScript('a', 'b', 'k') }           // abk
func vfC19_script_146() { vfUnroll(); vfScript('a', 'b', 'K') }           // abK
func vfC19_script_147() { vfUnroll(); vfScript('a', 'b', 'h') }           // abh
func vfC19_script_148() { vfUnroll(); vfScript('a', 'b', 'f') }           // abf
func vfC19_script_149() { vfUnroll(); vfScript('a', 'b', 'u') }           // abu
func vfC19_script_150() { vfUnroll(); vfScript('a', 'b', 'U') }           // abU
func vfC19_script_151() { vfUnroll(); vfScript('a', 'b', 'i') }           // abi
func vfC19_script_152() { vfUnroll(); vfScript('a', 'b', 'I') }           // abI
func vfC19_script_153() { vfUnroll(); vfScript('a', 'B', 'a') }           // aBa
func vfC19_script_154() { vfUnroll(); vfScript('a', 'B', 'A') }           // aBA
func vfC19_script_155() { vfUnroll(); vfScript('a', 'B', 'b') }           // aBb
func vfC19_script_156() { vfUnroll(); vfScript('a', 'B', 'B') }           // aBB
func vfC19_script_157() { vfUnroll(); vfScript('a', 'B', 's') }           // aBs
func vfC19_script_158() { vfUnroll(); vfScript('a', 'B', 'S') }           // aBS
func vfC19_script_159() { vfUnroll(); vfScript('a', 'B', 'k') }           // aBk
func vfC19_script_160() { vfUnroll(); vfScript('a', 'B', 'K') }           // aBK
func vfC19_script_161() { vfUnroll(); vfScript('a', 'B', 'h') }           // aBh
func vfC19_script_162() { vfUnroll(); vfScript('a', 'B', 'f') }           // aBf
func vfC19_script_163() { vfUnroll(); vfScript('a', 'B', 'u') }           // aBu
func vfC19_script_164() { vfUnroll(); vfScript('a', 'B', 'U') }           // aBU
func vfC19_script_165() { vfUnroll(); vfScript('a', 'B', 'i') }           // aBi
func vfC19_script_166() { vfUnroll(); vfScript('a', 'B', 'I') }           // aBI
func vfC19_script_167() { vfUnroll(); vfScript('a', 's', 'a') }           // asa
func vfC19_script_168() { vfUnroll(); vfScript('a', 's', 'A') }           // asA
func vfC19_script_169() { vfUnroll(); vfScript('a', 's', 'b') }           // asb
func vfC19_script_170() { vfUnroll(); vfScript('a', 's', 'B') }           // asB
func vfC19_script_171() { vfUnroll(); vfScript('a', 's', 's') }           // ass
func vfC19_script_172() { vfUnroll(); vfScript('a', 's', 'S') }           // asS
func vfC19_script_173() { vfUnroll(); vfScript('a', 's', 'k') }           // ask
func vfC19_script_174() { vfUnroll(); vfScript('a', 's', 'K') }           // asK
func vfC19_script_175() { vfUnroll(); vfScript('a', 's', 'h') }           // ash
func vfC19_script_176() { vfUnroll(); vfScript('a', 's', 'f') }           // asf
func vfC19_script_177() { vfUnroll(); vfScript('a', 's', 'u') }           // asu
func vfC19_script_178() { vfUnroll(); vfScript('a', 's', 'U') }           // asU
func vfC19_script_179() { vfUnroll(); vfScript('a', 's', 'i') }           // asi
func vfC19_script_180() { vfUnroll(); vfScript('a', 's', 'I') }           // asI
func vfC19_script_181() { vfUnroll(); vfScript('a', 'k', 'a') }           // aka
func vfC19_script_182() { vfUnroll(); vfScript('a', 'k', 'A') }           // akA
func vfC19_script_183() { vfUnroll(); vfScript('a', 'k', 'b') }           // akb
func vfC19_script_184() { vfUnroll(); vfScript('a', 'k', 'B') }           // akB
func vfC19_script_185() { vfUnroll(); vfScript('a', 'k', 's') }           // aks
func vfC19_script_186() { vfUnroll(); vfScript('a', 'k', 'S') }           // akS
func vfC19_script_187() { vfUnroll(); vfScript('a', 'k', 'u') }           // aku
func vfC19_script_188() { vfUnroll(); vfScript('a', 'k', 'U') }           // akU
func vfC19_script_189() { vfUnroll(); vfScript('a', 'k', 'i') }           // aki
func vfC19_script_190() { vfUnroll(); vfScript('a', 'k', 'I') }           // akI
func vfC19_script_191() { vfUnroll(); vfScript('a', 'K', 'a') }           // aKa
func vfC19_script_192() { vfUnroll(); vfScript('a', 'K', 'A') }           // aKA
func vfC19_script_193() { vfUnroll(); vfScript('a', 'K', 'b') }           // aKb
func vfC19_script_194() { vfUnroll(); vfScript('a', 'K', 'B') }           // aKB
func vfC19_script_195() { vfUnroll(); vfScript('a', 'K', 's') }           // aKs
func vfC19_script_196() { vfUnroll(); vfScript('a', 'K', 'S') }           // aKS
func vfC19_script_197() { vfUnroll(); vfScript('a', 'K', 'u') }           // aKu
func vfC19_script_198() { vfUnroll(); vfScript('a', 'K', 'U') }           // aKU
func vfC19_script_199() { vfUnroll(); vfScript('a', 'K', 'i') }           // aKi
func vfC19_script_200() { vfUnroll(); vfScript('a', 'K', 'I') }           // aKI
func vfC19_script_201() { vfUnroll(); vfScript('a', 'h', 'a') }           // aha
func vfC19_script_202() { vfUnroll(); vfScript('a', 'h', 'A') }           // ahA
func vfC19_script_203() { vfUnroll(); vfScript('a', 'h', 'b') }           // ahb
func vfC19_script_204() { vfUnroll(); vfScript('a', 'h', 'B') }           // ahB
func vfC19_script_205() { vfUnroll(); vfScript('a', 'h', 's') }           // ahs
func vfC19_script_206() { vfUnroll(); vfScript('a', 'h', 'S') }           // ahS
func vfC19_script_207() { vfUnroll(); vfScript('a', 'h', 'u') }           // ahu
func vfC19_script_208() { vfUnroll(); vfScript('a', 'h', 'U') }           // ahU
func vfC19_script_209() { vfUnroll(); vfScript('a', 'h', 'i') }           // ahi
func vfC19_script_210() { vfUnroll(); vfScript('a', 'h', 'I') }           // ahI
func vfC19_script_211() { vfUnroll(); vfScript('a', 'f', 'a') }           // afa
func vfC19_script_212() { vfUnroll(); vfScript('a', 'f', 'A') }           // afA
func vfC19_script_213() { vfUnroll(); vfScript('a', 'f', 'b') }           // afb
func vfC19_script_214() { vfUnroll(); vfScript('a', 'f', 'B') }           // afB
func vfC19_script_215() { vfUnroll(); vfScript('a', 'f', 's') }           // afs
func vfC19_script_216() { vfUnroll(); vfScript('a', 'f', 'S') }           // afS
func vfC19_script_217() { vfUnroll(); vfScript('a', 'f', 'u') }           // afu
func vfC19_script_218() { vfUnroll(); vfScript('a', 'f', 'U') }           // afU
func vfC19_script_219() { vfUnroll(); vfScript('a', 'f', 'i') }           // afi
func vfC19_script_220() { vfUnroll(); vfScript('a', 'f', 'I') }           // afI
func vfC19_script_221() { vfUnroll(); vfScript('a', 'u', 'a') }           // aua
func vfC19_script_222() { vfUnroll(); vfScript('a', 'u', 'A') }           // auA
func vfC19_script_223() { vfUnroll(); vfScript('a', 'u', 'b') }           // aub
func vfC19_script_224() { vfUnroll(); vfScript('a', 'u', 'B') }           // auB
func vfC19_script_225() { vfUnroll(); vfScript('a', 'u', 's') }           // aus
func vfC19_script_226() { vfUnroll(); vfScript('a', 'u', 'S') }           // auS
func vfC19_script_227() { vfUnroll(); vfScript('a', 'u', 'k') }           // auk
func vfC19_script_228() { vfUnroll(); vfScript('a', 'u', 'K') }           // auK
func vfC19_script_229() { vfUnroll(); vfScript('a', 'u', 'h') }           // auh
func vfC19_script_230() { vfUnroll(); vfScript('a', 'u', 'f') }           // auf
func vfC19_script_231() { vfUnroll(); vfScript('a', 'u', 'u') }           // auu
func vfC19_script_232() { vfUnroll(); vfScript('a', 'u', 'U') }           // auU
func vfC19_script_233() { vfUnroll(); vfScript('a', 'u', 'i') }           // aui
func vfC19_script_234() { vfUnroll(); vfScript('a', 'u', 'I') }           // auI
func vfC19_script_235() { vfUnroll(); vfScript('a', 'U', 'a') }           // aUa
func vfC19_script_236() { vfUnroll(); vfScript('a', 'U', 'A') }           // aUA
func vfC19_script_237() { vfUnroll(); vfScript('a', 'U', 'b') }           // aUb
func vfC19_script_238() { vfUnroll(); vfScript('a', 'U', 'B') }           // aUB
func vfC19_script_239() { vfUnroll(); vfScript('a', 'U', 's') }           // aUs
func vfC19_script_240() { vfUnroll(); vfScript('a', 'U', 'S') }           // aUS
func vfC19_script_241() { vfUnroll(); vfScript('a', 'U', 'k') }           // aUk
func vfC19_script_242() { vfUnroll(); vfScript('a', 'U', 'K') }           // aUK
func vfC19_script_243() { vfUnroll(); vfScript('a', 'U', 'h') }           // aUh
func vfC19_script_244() { vfUnroll(); vfScript('a', 'U', 'f') }           // aUf
func vfC19_script_245() { vfUnroll(); vfScript('a', 'U', 'u') }           // aUu
func vfC19_script_246() { vfUnroll(); vfScript('a', 'U', 'U') }           // aUU
func vfC19_script_247() { vfUnroll(); vfScript('a', 'U', 'i') }           // aUi
func vfC19_script_248() { vfUnroll(); vfScript('a', 'U', 'I') }           // aUI
func vfC19_script_249() { vfUnroll(); vfScript('a', 'i', 'a') }           // aia
func vfC19_script_250() { vfUnroll(); vfScript('a', 'i', 'A') }           // aiA
func vfC19_script_251() { vfUnroll(); vfScript('a', 'i', 'b') }           // aib
func vfC19_script_252() { vfUnroll(); vfScript('a', 'i', 'B') }           // aiB
func vfC19_script_253() { vfUnroll(); vfScript('a', 'i', 's') }           // ais
func vfC19_script_254() { vfUnroll(); vfScript('a', 'i', 'S') }           // aiS
func vfC19_script_255() { vfUnroll(); vfScript('a', 'i', 'k') }           // aik
func vfC19_script_256() { vfUnroll(); vfScript('a', 'i', 'K') }           // aiK
func vfC19_script_257() { vfUnroll(); vfScript('a', 'i', 'h') }           // aih
func vfC19_script_258() { vfUnroll(); vfScript('a', 'i', 'f') }           // aif
func vfC19_script_259() { vfUnroll(); vfScript('a', 'i', 'u') }           // aiu
func vfC19_script_260() { vfUnroll(); vfScript('a', 'i', 'U') }           // aiU
func vfC19_script_261() { vfUnroll(); vfScript('a', 'i', 'i') }           // aii
func vfC19_script_262() { vfUnroll(); vfScript('a', 'i', 'I') }           // aiI
func vfC19_script_263() { vfUnroll(); vfScript('a', 'I', 'a') }           // aIa
func vfC19_script_264() { vfUnroll(); vfScript('a', 'I', 'A') }           // aIA
func vfC19_script_265() { vfUnroll(); vfScript('a', 'I', 'b') }           // aIb
func vfC19_script_266() { vfUnroll(); vfScript('a', 'I', 'B') }           // aIB
func vfC19_script_267() { vfUnroll(); vfScript('a', 'I', 's') }           // aIs
func vfC19_script_268() { vfUnroll(); vfScript('a', 'I', 'S') }           // aIS
func vfC19_script_269() { vfUnroll(); vfScript('a', 'I', 'k') }           // aIk
func vfC19_script_270() { vfUnroll(); vfScript('a', 'I', 'K') }           // aIK
func vfC19_script_271() { vfUnroll(); vfScript('a', 'I', 'h') }           // aIh
func vfC19_script_272() { vfUnroll(); vfScript('a', 'I', 'f') }           // aIf
func vfC19_script_273() { vfUnroll(); vfScript('a', 'I', 'u') }           // aIu
func vfC19_script_274() { vfUnroll(); vfScript('a', 'I', 'U') }           // aIU
func vfC19_script_275() { vfUnroll(); vfScript('a', 'I', 'i') }           // aIi
func vfC19_script_276() { vfUnroll(); vfScript('a', 'I', 'I') }           // aII
func vfC19_script_277() { vfUnroll(); vfScript('a', 'b', 'a', 'a') }      // abaa
func vfC19_script_278() { vfUnroll(); vfScript('a', 'b', 'a', 'A') }      // abaA
func vfC19_script_279() { vfUnroll(); vfScript('a', 'b', 'a', 's') }      // abas
func vfC19_script_280() { vfUnroll(); vfScript('a', 'b', 'a', 'S') }      // abaS
func vfC19_script_281() { vfUnroll(); vfScript('a', 'b', 'a', 'k') }      // abak
func vfC19_script_282() { vfUnroll(); vfScript('a', 'b', 'a', 'K') }      // abaK
func vfC19_script_283() { vfUnroll(); vfScript('a', 'b', 'a', 'u') }      // abau
func vfC19_script_284() { vfUnroll(); vfScript('a', 'b', 'a', 'U') }      // abaU
func vfC19_script_285() { vfUnroll(); vfScript('a', 'b', 'a', 'i') }      // abai
func vfC19_script_286() { vfUnroll(); vfScript('a', 'b', 'a', 'I') }      // abaI
func vfC19_script_287() { vfUnroll(); vfScript('a', 'b', 'A', 'a') }      // abAa
func vfC19_script_288() { vfUnroll(); vfScript('a', 'b', 'A', 'A') }      // abAA
func vfC19_script_289() { vfUnroll(); vfScript('a', 'b', 'A', 's') }      // abAs
func vfC19_script_290() { vfUnroll(); vfScript('a', 'b', 'A', 'S') }      // abAS
func vfC19_script_291() { vfUnroll(); vfScript('a', 'b', 'A', 'k') }      // abAk
func vfC19_script_292() { vfUnroll(); vfScript('a', 'b', 'A', 'K') }      // abAK
func vfC19_script_293() { vfUnroll(); vfScript('a', 'b', 'A', 'u') }      // abAu
func vfC19_script_294() { vfUnroll(); vfScript('a', 'b', 'A', 'U') }      // abAU
func vfC19_script_295() { vfUnroll(); vfScript('a', 'b', 'A', 'i') }      // abAi
func vfC19_script_296() { vfUnroll(); vfScript('a', 'b', 'A', 'I') }      // abAI
func vfC19_script_297() { vfUnroll(); vfScript('a', 'b', 's', 'a') }      // absa
func vfC19_script_298() { vfUnroll(); vfScript('a', 'b', 's', 'A') }      // absA
func vfC19_script_299() { vfUnroll(); vfScript('a', 'b', 's', 's') }      // abss
func vfC19_script_300() { vfUnroll(); vfScript('a', 'b', 's', 'S') }      // absS
func vfC19_script_301() { vfUnroll(); vfScript('a', 'b', 's', 'k') }      // absk
func vfC19_script_302() { vfUnroll(); vfScript('a', 'b', 's', 'K') }      // absK
func vfC19_script_303() { vfUnroll(); vfScript('a', 'b', 's', 'u') }      // absu
func vfC19_script_304() { vfUnroll(); vfScript('a', 'b', 's', 'U') }      // absU
func vfC19_script_305() { vfUnroll(); vfScript('a', 'b', 's', 'i') }      // absi
func vfC19_script_306() { vfUnroll(); vfScript('a', 'b', 's', 'I') }      // absI
func vfC19_script_307() { vfUnroll(); vfScript('a', 'b', 'S', 'a') }      // abSa
func vfC19_script_308() { vfUnroll(); vfScript('a', 'b', 'S', 'A') }      // abSA
func vfC19_script_309() { vfUnroll(); vfScript('a', 'b', 'S', 's') }      // abSs
func vfC19_script_310() { vfUnroll(); vfScript('a', 'b', 'S', 'S') }      // abSS
func vfC19_script_311() { vfUnroll(); vfScript('a', 'b', 'S', 'k') }      // abSk
func vfC19_script_312() { vfUnroll(); vfScript('a', 'b', 'S', 'K') }      // abSK
func vfC19_script_313() { vfUnroll(); vfScript('a', 'b', 'S', 'u') }      // abSu
func vfC19_script_314() { vfUnroll(); vfScript('a', 'b', 'S', 'U') }      // abSU
func vfC19_script_315() { vfUnroll(); vfScript('a', 'b', 'S', 'i') }      // abSi
func vfC19_script_316() { vfUnroll(); vfScript('a', 'b', 'S', 'I') }      // abSI
func vfC19_script_317() { vfUnroll(); vfScript('a', 'b', 'k', 'a') }      // abka
func vfC19_script_318() { vfUnroll(); vfScript('a', 'b', 'k', 'A') }      // abkA
func vfC19_script_319() { vfUnroll(); vfScript('a', 'b', 'k', 's') }      // abks
func vfC19_script_320() { vfUnroll(); vfScript('a', 'b', 'k', 'S') }      // abkS
func vfC19_script_321() { vfUnroll(); vfScript('a', 'b', 'k', 'u') }      // abku
func vfC19_script_322() { vfUnroll(); vfScript('a', 'b', 'k', 'U') }      // abkU
func vfC19_script_323() { vfUnroll(); vfScript('a', 'b', 'k', 'i') }      // abki
func vfC19_script_324() { vfUnroll(); vfScript('a', 'b', 'k', 'I') }      // abkI
func vfC19_script_325() { vfUnroll(); vfScript('a', 'b', 'K', 'a') }      // abKa
func vfC19_script_326() { vfUnroll(); vfScript('a', 'b', 'K', 'A') }      // abKA
func vfC19_script_327() { vfUnroll(); vfScript('a', 'b', 'K', 's') }      // abKs
func vfC19_script_328() { vfUnroll(); vfScript('a', 'b', 'K', 'S') }      // abKS
func vfC19_script_329() { vfUnroll(); vfScript('a', 'b', 'K', 'u') }      // abKu
func vfC19_script_330() { vfUnroll(); vfScript('a', 'b', 'K', 'U') }      // abKU
func vfC19_script_331() { vfUnroll(); vfScript('a', 'b', 'K', 'i') }      // abKi
func vfC19_script_332() { vfUnroll(); vfScript('a', 'b', 'K', 'I') }      // abKI
func vfC19_script_333() { vfUnroll(); vfScript('a', 'b', 'u', 'a') }      // abua
func vfC19_script_334() { vfUnroll(); vfScript('a', 'b', 'u', 'A') }      // abuA
func vfC19_script_335() { vfUnroll(); vfScript('a', 'b', 'u', 's') }      // abus
func vfC19_script_336() { vfUnroll(); vfScript('a', 'b', 'u', 'S') }      // abuS
func vfC19_script_337() { vfUnroll(); vfScript('a', 'b', 'u', 'k') }      // abuk
func vfC19_script_338() { vfUnroll(); vfScript('a', 'b', 'u', 'K') }      // abuK
func vfC19_script_339() { vfUnroll(); vfScript('a', 'b', 'u', 'u') }      // abuu
func vfC19_script_340() { vfUnroll(); vfScript('a', 'b', 'u', 'U') }      // abuU
func vfC19_script_341() { vfUnroll(); vfScript('a', 'b', 'u', 'i') }      // abui
func vfC19_script_342() { vfUnroll(); vfScript('a', 'b', 'u', 'I') }      // abuI
func vfC19_script_343() { vfUnroll(); vfScript('a', 'b', 'U', 'a') }      // abUa
func vfC19_script_344() { vfUnroll(); vfScript('a', 'b', 'U', 'A') }      // abUA
func vfC19_script_345() { vfUnroll(); vfScript('a', 'b', 'U', 's') }      // abUs
func vfC19_script_346() { vfUnroll(); vfScript('a', 'b', 'U', 'S') }      // abUS
func vfC19_script_347() { vfUnroll(); vfScript('a', 'b', 'U', 'k') }      // abUk
func vfC19_script_348() { vfUnroll(); vfScript('a', 'b', 'U', 'K') }      // abUK
func vfC19_script_349() { vfUnroll(); vfScript('a', 'b', 'U', 'u') }      // abUu
func vfC19_script_350() { vfUnroll(); vfScript('a', 'b', 'U', 'U') }      // abUU
func vfC19_script_351() { vfUnroll(); vfScript('a', 'b', 'U', 'i') }      // abUi
func vfC19_script_352() { vfUnroll(); vfScript('a', 'b', 'U', 'I') }      // abUI
func vfC19_script_353() { vfUnroll(); vfScript('a', 'b', 'i', 'a') }      // abia
func vfC19_script_354() { vfUnroll(); vfScript('a', 'b', 'i', 'A') }      // abiA
func vfC19_script_355() { vfUnroll(); vfScript('a', 'b', 'i', 's') }      // abis
func vfC19_script_356() { vfUnroll(); vfScript('a', 'b', 'i', 'S') }      // abiS
func vfC19_script_357() { vfUnroll(); vfScript('a', 'b', 'i', 'k') }      // abik
func vfC19_script_358() { vfUnroll(); vfScript('a', 'b', 'i', 'K') }      // abiK
func vfC19_script_359() { vfUnroll(); vfScript('a', 'b', 'i', 'u') }      // abiu
func vfC19_script_360() { vfUnroll(); vfScript('a', 'b', 'i', 'U') }      // abiU
func vfC19_script_361() { vfUnroll(); vfScript('a', 'b', 'i', 'i') }      // abii
func vfC19_script_362() { vfUnroll(); vfScript('a', 'b', 'i', 'I') }      // abiI
func vfC19_script_363() { vfUnroll(); vfScript('a', 'b', 'I', 'a') }      // abIa
func vfC19_script_364() { vfUnroll(); vfScript('a', 'b', 'I', 'A') }      // abIA
func vfC19_script_365() { vfUnroll(); vfScript('a', 'b', 'I', 's') }      // abIs
func vfC19_script_366() { vfUnroll(); vfScript('a', 'b', 'I', 'S') }      // abIS
func vfC19_script_367() { vfUnroll(); vfScript('a', 'b', 'I', 'k') }      // abIk
func vfC19_script_368() { vfUnroll(); vfScript('a', 'b', 'I', 'K') }      // abIK
func vfC19_script_369() { vfUnroll(); vfScript('a', 'b', 'I', 'u') }      // abIu
func vfC19_script_370() { vfUnroll(); vfScript('a', 'b', 'I', 'U') }      // abIU
func vfC19_script_371() { vfUnroll(); vfScript('a', 'b', 'I', 'i') }      // abIi
func vfC19_script_372() { vfUnroll(); vfScript('a', 'b', 'I', 'I') }      // abII
func vfC19_script_373() { vfUnroll(); vfScript('a', 'A', 'b', 'a', 'b') } // aAbab
func vfC19_script_374() { vfUnroll(); vfScript('a', 'A', 'b', 'a', 'B') } // aAbaB
func vfC19_script_375() { vfUnroll(); vfScript('a', 'A', 'b', 'a', 's') } // aAbas
func vfC19_script_376() { vfUnroll(); vfScript('a', 'A', 'b', 'a', 'S') } // aAbaS
func vfC19_script_377() { vfUnroll(); vfScript('a', 'A', 'b', 'a', 'i') } // aAbai
func vfC19_script_378() { vfUnroll(); vfScript('a', 'A', 'b', 'A', 'b') } // aAbAb
func vfC19_script_379() { vfUnroll(); vfScript('a', 'A', 'b', 'A', 'B') } // aAbAB
func vfC19_script_380() { vfUnroll(); vfScript('a', 'A', 'b', 'A', 's') } // aAbAs
func vfC19_script_381() { vfUnroll(); vfScript('a', 'A', 'b', 'A', 'S') } // aAbAS
func vfC19_script_382() { vfUnroll(); vfScript('a', 'A', 'b', 'A', 'i') } // aAbAi
func vfC19_script_383() { vfUnroll(); vfScript('a', 'A', 'b', 's', 'b') } // aAbsb
func vfC19_script_384() { vfUnroll(); vfScript('a', 'A', 'b', 's', 'B') } // aAbsB
func vfC19_script_385() { vfUnroll(); vfScript('a', 'A', 'b', 's', 's') } // aAbss
func vfC19_script_386() { vfUnroll(); vfScript('a', 'A', 'b', 's', 'S') } // aAbsS
func vfC19_script_387() { vfUnroll(); vfScript('a', 'A', 'b', 's', 'i') } // aAbsi
func vfC19_script_388() { vfUnroll(); vfScript('a', 'A', 'b', 'S', 'b') } // aAbSb
func vfC19_script_389() { vfUnroll(); vfScript('a', 'A', 'b', 'S', 'B') } // aAbSB
func vfC19_script_390() { vfUnroll(); vfScript('a', 'A', 'b', 'S', 's') } // aAbSs
func vfC19_script_391() { vfUnroll(); vfScript('a', 'A', 'b', 'S', 'S') } // aAbSS
func vfC19_script_392() { vfUnroll(); vfScript('a', 'A', 'b', 'S', 'i') } // aAbSi
func vfC19_script_393() { vfUnroll(); vfScript('a', 'A', 'b', 'k', 'b') } // aAbkb
func vfC19_script_394() { vfUnroll(); vfScript('a', 'A', 'b', 'k', 'B') } // aAbkB
func vfC19_script_395() { vfUnroll(); vfScript('a', 'A', 'b', 'k', 's') } // aAbks
func vfC19_script_396() { vfUnroll(); vfScript('a', 'A', 'b', 'k', 'S') } // aAbkS
func vfC19_script_397() { vfUnroll(); vfScript('a', 'A', 'b', 'k', 'i') } // aAbki
