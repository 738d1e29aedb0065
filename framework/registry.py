"""What each check runs: harnesses (how they are built) and properties (which harnesses, within which bounds)."""

# also: an access outside of a standard container ends the execution (and is reported)
CHECKED = "-O1 -D_GLIBCXX_ASSERTIONS"

HARNESSES = {
    "kernels": {"source": "kernels.cpp", "mode": "slice", "flags": "-O2"},
    "coulomb": {"source": "coulomb.cpp", "mode": "slice", "flags": "-O2"},
    "spins": {"source": "spins.cpp", "mode": "slice", "flags": "-O2", "fallback": "-DNO_COMPLEX_PACK"},
    # the whole library, with stand-ins for the njoy libraries it is written against; "parts": see header_gen.py
    "rm_channel": {"source": "rm_channel.cpp", "mode": "shim", "flags": CHECKED, "parts": "make:makeChannelRadiusTable make:makeChannelRadii make:makeQuantumNumbers"},
    "rm_group": {"source": "rm_group.cpp", "mode": "shim", "flags": CHECKED, "parts": ""},
    "rm_system": {"source": "rm_system.cpp", "mode": "shim", "flags": CHECKED, "parts": ""},
    "rm_data": {"source": "rm_data.cpp", "mode": "shim", "flags": CHECKED, "parts": ""},
    "rm_legacy": {"source": "rm_legacy.cpp", "mode": "shim", "flags": CHECKED, "parts": "legacy"},
    "rm_recon": {"source": "rm_recon.cpp", "mode": "shim", "flags": CHECKED, "parts": "legacy variant"},
    "rm_endf": {"source": "rm_endf.cpp", "mode": "shim", "flags": CHECKED, "parts": "legacy make:all variant fromENDF"},
    "old": {"source": "old.cpp", "mode": "shim", "flags": CHECKED, "parts": "old legacy"},
    "rm_keep": {"source": "rm_keep.cpp", "mode": "shim", "flags": CHECKED, "parts": "legacy variant"},
}

FLOAT = "IEEE double arithmetic of this machine, g++ -O2 without fast-math; tolerances stated in DESIGN.md"
SHIM = "the stand-ins in /verif/shim for dimwits, elementary, interpolation, ENDFtk and Log behave as those libraries do where this project uses them (they run the project's own unit tests)"
PURE = "results at ratios between lattice points are covered only as far as the code has no branch that avoids the lattice"

PROPERTIES = {
    "C01": {"harness": ["spins"], "technique": "exhaustive enumeration of all spin pairs on the real code against an exact integer model",
            "bounds": {"quick": "both spins 0..120 in steps of 1/2", "thorough": "both spins 0..300 in steps of 1/2"},
            "assumptions": ["spins are multiples of 1/2"]},
    "C02": {"harness": ["spins"], "technique": "exhaustive enumeration of all quantum number combinations on the real code against an exact integer model",
            "bounds": {"quick": "l 0..150, s 0..100; l 0..40, i and I 0..20; union form l 0..100, i 0 and 1/2, I 0..60", "thorough": "l 0..300, s 0..200; l 0..60, i and I 0..30; union form l 0..200, I 0..120"},
            "assumptions": ["spins are multiples of 1/2"]},
    "C03": {"harness": ["kernels"], "technique": "exhaustive enumeration of a bounded set of doubles on the real code against a long double reference model",
            "bounds": {"quick": "l 0..4; every ratio with exponent -100..99 and a 16 bit mantissa, exponent -10..6 and 21 bits, every decimal of 5 digits from 1e-9 to 1e6, 64 neighbours on each side of 31 special points, down to the smallest double with 4 bits; 22 values of eta for every 2 digit ratio; l 5..2004 and values around every power of two refused",
                       "thorough": "l 0..4; every ratio with exponent -100..99 and an 18 bit mantissa, exponent -14..7 and 23 bits, every decimal of 6 digits; l 5..100004 refused"},
            "assumptions": [FLOAT, PURE]},
    "C04": {"harness": ["kernels"], "technique": "exhaustive enumeration of a bounded set of doubles on both implementations and a long double reference model",
            "bounds": {"quick": "l 0..4; every ratio with exponent -100..99 and a 15 bit mantissa, exponent -10..6 and 20 bits, every decimal of 5 digits from 1e-9 to 1e6, special neighbourhoods, zero and negative ratios (8 bit mantissas and decimals of 4 digits); l -2000..2004 and values around every power of two refused",
                       "thorough": "l 0..4; every ratio with exponent -100..99 and a 17 bit mantissa, exponent -14..7 and 22 bits, every decimal of 6 digits"},
            "assumptions": [FLOAT, PURE]},
    "C05": {"harness": ["kernels"], "technique": "exhaustive enumeration of a bounded argument lattice on the real code",
            "bounds": {"quick": "l 0..63, 14 eta, exponent -32..31 with a 6 bit mantissa; every decimal ratio and eta of 4 digits from 1e-8 to 1e5; extreme l and ratios; photon, fission and neutron", "thorough": "l 0..255, same with 8 bits and 5 digits"},
            "assumptions": [FLOAT]},
    "C06": {"harness": ["coulomb"], "technique": "exhaustive enumeration of a bounded (l, rho, eta) lattice on the real code against a long double reference model",
            "bounds": {"quick": "eta: 0, 2^-10..32 (12 per octave), 25 decimals and the branch points; rho 2^-6..2^9 (64 per octave) and decimals; l 0..24; rho down to 2^-30 where the method keeps digits and up to 2^12, l 0..8; eta 41..128 and rho 2^-6..4 eta + 500 (32 per octave), l 0..8; eta 2^9..2^38 far below the barrier; Wronskian l 0..58; l 59..458 and values around every power of two refused",
                       "thorough": "eta 64 per octave, rho 256 per octave, l 0..24; eta 41..400 under and above the barrier; Wronskian l 0..58; l 59..4058 refused"},
            "assumptions": [FLOAT, "accuracy is that of the fixed-step inward integration: the tolerance grows as eta/rho, see DESIGN.md"]},
    "C07": {"harness": ["coulomb"], "technique": "exhaustive enumeration of a bounded (l, eta) lattice on the real code against a long double reference model",
            "bounds": {"quick": "l 0..59, eta 0 and 2^-10..2^10 with an 11 bit mantissa, every decimal of 3 digits from 1e-6 to 1e3, negative eta, l up to 1000", "thorough": "l 0..119, 14 bits"},
            "assumptions": [FLOAT]},
    "C08": {"harness": ["spins"], "technique": "exhaustive enumeration of all quantum number sets on the real code against an exact integer model",
            "bounds": {"quick": "l 0..70, s 0..50, J 0..80, both parities; values up to 2^32-1; all pairs of sets up to l 8, s 8.5, J 17.5",
                       "thorough": "l 0..130, s 0..80, J 0..140, both parities"},
            "assumptions": ["spins are multiples of 1/2"]},
    "C09": {"harness": ["spins"], "technique": "exhaustive exploration of all operation sequences up to a depth on the real code, compared with component-wise arithmetic",
            "bounds": {"quick": "1 to 4 components, all sequences of 3 operations out of 20 (sum and difference with another pack or itself, product); 5, 6, 7, 8 and 11 components, 2 operations; mixed component types", "thorough": "all sequences of 4 operations (4 components: 3)"},
            "assumptions": [FLOAT]},
    "C10": {"harness": ["kernels"], "technique": "exhaustive exploration of all call histories up to a depth, each answer compared with that of a fresh process",
            "bounds": {"quick": "all sequences of 3 calls out of 206 (18 functions), and of 3 calls out of 44 followed by the first one again", "thorough": "all sequences of 3 calls out of 218, and of 4 calls out of 44"},
            "assumptions": ["single-threaded use"]},
    "C11": {"harness": ["rm_channel"], "technique": "exhaustive enumeration of a bounded set of channels and energies on the real code against a long double reference model",
            "bounds": {"quick": "5 incident pairs x 7 outgoing pairs x 9 Q values x l 0..4 x 6 J x 2 radii x 24 energies; 60 thresholds x 33 neighbouring energies; all channel identifiers of a small set",
                       "thorough": "96 energies; 400 thresholds"},
            "assumptions": [SHIM, FLOAT]},
    "C12": {"harness": ["rm_channel"], "technique": "exhaustive enumeration of radius tables, options and energies on the real code against a reference interpolation",
            "bounds": "constant radii and 1- and 2-region tables with every interpolation law, NAPS 0..4, 5 masses, 14 energies; every division of 2..8 points into regions x 6 choices of laws at and beside every point; every unknown law from -20 to 43; every mix of constant and tabulated radii in the three constructors; tables with up to 3 jumps at every position; tables of 9..50 points (thorough 200) in several regions",
            "assumptions": [SHIM, FLOAT]},
    "C13": {"harness": ["rm_group"], "technique": "exhaustive enumeration of a bounded set of spin groups (ordered channel selections x resonance tables x energies) on the real code against a long double R-matrix model",
            "bounds": {"quick": "neutron incident: every ordered selection of 1..3 of 8 channels; charged incident: 1..2 of 8; 0..2 resonances with every sign/zero pattern and elimination pattern; both boundary options; 10..16 energies up to 19 MeV, at a resonance among them; 4..8 channels with 0..8 resonances; 1..17 channels with 9..40 resonances; 512 energies for one channel",
                       "thorough": "1..4 and 1..3 channels, 0..3 resonances; to 33 channels with 100 resonances; 8192 energies"},
            "assumptions": [SHIM, FLOAT, "Coulomb functions as computed by the code (C06, C07)"]},
    "C14": {"harness": ["rm_group"], "technique": "exhaustive enumeration of a bounded set of spin groups on the real code against a long double R-matrix model",
            "bounds": {"quick": "as C13", "thorough": "as C13"},
            "assumptions": [SHIM, FLOAT, "Coulomb functions as computed by the code (C06, C07)"]},
    "C15": {"harness": ["rm_system", "rm_legacy"], "technique": "exhaustive exploration of all operation sequences up to a depth on the real objects, each answer compared with that of a fresh object",
            "bounds": {"quick": "4 spin groups and 2 compound systems, both options: all sequences of 3 out of 22 operations (evaluate and T matrix at 6 energies, an object with other data at 6 energies, grid, copy, move, assignment from the other one); 9 SLBW, MLBW and unresolved groups and 3 systems of them: all sequences of 3 out of 13 operations", "thorough": "all sequences of 4"},
            "assumptions": [SHIM, "single-threaded use"]},
    "C16": {"harness": ["rm_system", "rm_legacy"], "technique": "exhaustive exploration of all sequences of evaluations into one map, and of all ordered selections of spin groups, against a reference sum",
            "bounds": "all sequences of 0..4 evaluations of 4 groups into 3 kinds of initial map at 6 energies; all sequences of 1..3 T matrix evaluations into one map; compound systems of every ordered selection of 1..4 groups, and of 1..24 groups (thorough 40) in several orders; all sequences of 0..4 evaluations of 7 SLBW, MLBW and unresolved groups",
            "assumptions": [SHIM, FLOAT]},
    "C17": {"harness": ["rm_system"], "technique": "exhaustive enumeration of all permutations of channels and resonances (and sign flips) on the real code",
            "bounds": {"quick": "5 spin groups of 2..4 channels and 1..3 resonances: every permutation of both, 3 sign variants, 6 energies, both options; every selection of 2..4 of 8 channels in every order x orders of the resonances x sign flips, both options; 1..17 channels and up to 40 resonances in several orders", "thorough": "selections of 2..5 of 8 channels"},
            "assumptions": [SHIM, FLOAT]},
    "C18": {"harness": ["rm_system"], "technique": "exhaustive enumeration of energies across every threshold on the real code, against the group without the closed channels",
            "bounds": {"quick": "5 spin groups with 1..3 threshold channels, 0..2 resonances, both options: 48 energies, and 81 energies around each threshold (every one of the 8 nearest doubles on both sides); every selection of 1..3 of 8 closed channels with the elastic one at every position, 0..2 resonances, bound or not, both options: 12 energies and 9 doubles around every threshold; 1..17 channels and up to 40 resonances",
                       "thorough": "240 energies; selections of 1..4 of 8, 48 energies and 33 doubles around every threshold"},
            "assumptions": [SHIM, FLOAT]},
    "C19": {"harness": ["rm_data"], "technique": "exhaustive enumeration of channel data sets (subsets, orders, positions of the eliminated channel) on the real code against a reference table",
            "bounds": {"quick": "1..3 channels and an eliminated one at every position, each with every subset of 3 resonance energies in both orders; compound systems from every permutation of 2..6 channels, 3 overlap patterns; resonance energies 1 ulp to 1e-3 apart; up to 48 resonances; 4..16 channels of 1..13 resonances with the eliminated one at every position; 1..16 groups with their channels mixed; the accessors of every group", "thorough": "to 33 channels, 120 resonances, 30 groups"},
            "assumptions": [SHIM, FLOAT]},
    "C20": {"harness": ["rm_data", "rm_legacy"], "technique": "exhaustive enumeration of well and ill formed inputs of the constructors on the real code against an acceptance model",
            "bounds": {"quick": "every list of 0..4 of 7 channels x 5 table defects at every position x 0..2 resonances; tables of 0..4 channels and 0..3 resonances with 0..5 widths; channel data of 0..7 x 0..7; systems of every list of 0..6 of 5 spin groups (R-matrix, SLBW, MLBW, unresolved); unresolved tables of 0..4 resonances with degrees of freedom 0..7; one defect anywhere in groups, tables and systems of 5..20 channels, resonances or groups; 64 particles",
                       "thorough": "0..5 channels, 0..7 groups; one defect in up to 40"},
            "assumptions": [SHIM]},
    "C21": {"harness": ["rm_system", "rm_legacy"], "technique": "exhaustive enumeration of resonance tables on the real code against a reference grid",
            "bounds": "every list of 0..3 out of 7 resonance energies (negative, zero, equal) x 3 width patterns x 3 channel sets x both options; systems of every ordered selection of 1..4 groups; the same for SLBW and MLBW groups of 0..3 resonances; resonances 1 ulp to a few eV apart; groups of 1..17 channels and 9..40 resonances; systems of 1..24 groups",
            "assumptions": [SHIM, FLOAT]},
    "C22": {"harness": ["rm_legacy"], "technique": "exhaustive enumeration of a bounded set of Breit-Wigner groups and systems on the real code against a long double model through the collision function",
            "bounds": {"quick": "l 0..4 x 2 targets x 0..4 resonances with 6 width patterns each x 2 shift radii x 3 competitive Q values x 14 energies, both formalisms; every ordered selection of 1..5 of 6 groups as a system with potential scattering; 4..80 resonances in 4 patterns; 9216 resonances; systems of up to 27 groups",
                       "thorough": "0..5 resonances with 8 width patterns; 1..6 groups; to 160 resonances"},
            "assumptions": [SHIM, FLOAT]},
    "C23": {"harness": ["rm_legacy"], "technique": "exhaustive enumeration of unresolved tables, degrees of freedom, widths and energies on the real code against a long double model of the averages",
            "bounds": {"quick": "every combination of degrees of freedom 0..4 with a width grid; tables of 2..4 energies (and 3 patterns of 2..80), every energy at, between, beside and outside the tabulated ones; l 0..4, 20 eV to 3 MeV; every ordered selection of 1..4 groups as a system, and up to 27 groups", "thorough": "patterns of 2..160 energies"},
            "assumptions": [SHIM, FLOAT, "the 10 point quadratures of MC2 are the definition of the averages (compared with the average over the distribution itself to 3 %)"]},
    "C24": {"harness": ["rm_legacy"], "technique": "exhaustive enumeration of bounded sets of energy tables on the real code against a reference description of the grid",
            "bounds": {"quick": "every increasing list of 2..4 of 33 energies; every pair of 120 energies over 11 decades; every pair of scheme points in 19 decades and their neighbouring doubles; up to 4 groups with tables of their own; groups whose energies are 1 ulp to 1e-3 apart; up to 27 groups",
                       "thorough": "lists of 2..5; every pair of 400 energies"},
            "assumptions": [SHIM, FLOAT]},
    "C25": {"harness": ["rm_channel"], "technique": "exhaustive enumeration of spins and exploration of all request sequences up to a depth on the real code against a reference list",
            "bounds": {"quick": "projectile spins 0..2, target spins 0..7.5, 0..7 values of l; projectile spins 0, 1/2, 1, 3/2 with 4 target spins, up to 3 values of l: all sequences of 0..4 requests out of up to 25", "thorough": "spins 0..4 and 0..10, 0..12 values of l; sequences of 0..5 requests"},
            "assumptions": [SHIM]},
    "C26": {"harness": ["rm_recon"], "technique": "exhaustive enumeration of limits and energies and exploration of all operation sequences up to a depth on the real objects against the bare compound system",
            "bounds": {"quick": "5 kinds of system x every ordered pair of 8 limits (and the neighbouring doubles) x 13 energies; all sequences of 5 out of 9 operations", "thorough": "all sequences of 6"},
            "assumptions": [SHIM]},
    "C27": {"harness": ["rm_endf"], "technique": "exhaustive enumeration of a bounded set of ENDF resonance ranges on the real code against long double models of each formalism",
            "bounds": {"quick": "LRF 1, 2: 3 target spins x 5 radius options x 1..3 l values x 0..2 resonances each x J choices x LRX; LRF 3: the same with signed J, fission patterns, APL, NLSC; a resonance for every J of any of 4 l values; LRF 7: every ordered selection of 1..3 of 7 channels x orders of the pairs x IFG, SHF, width patterns, J = 0; three unresolved forms; every LRU 0..4 x LRF 0..8 x parameter kind; J from -7.5 to 7.5; LRF 1, 2, 3: 4, 9, 17, 33 resonances of one l (0..3), or of all up to it, over every (signed) J of 4 target spins to 8 in 4 orders; fission widths over 5 decades; ranges and energies to 2e7 eV", "thorough": "LRF 7: 1..4 channels; one more resonance for LRF 3; to 120 resonances of one l"},
            "assumptions": [SHIM, FLOAT]},
    "C28": {"harness": ["old"], "technique": "exhaustive enumeration of a bounded set of Breit-Wigner resonance ranges on the real code against a long double model through the collision function",
            "bounds": {"quick": "13 target spins x 5 radius options x every set of l 0..4 without resonances; 4 target spins x 5 radius options x 8 lists of l x 4 competitive Q values x 0..3 resonances with every assignment of up to 3 J in every order, bound levels; 4, 9, 17, 33 resonances of one l (0..4) over every J of 4 target spins to 8 in 4 orders; every set of 2..5 l in rotated and reversed orders, each with its own LRX and QX, 1 or 7 resonances each; 15 energies to 1.7e7 eV, each twice; 35 radius tables x 16 energies; wave number at 1600 energies x 10 masses; every parameter kind x l 0..7 x NRO x NAPS -2..4",
                       "thorough": "8 target spins, one more resonance; to 150 resonances of one l, to 20 of each of several l"},
            "assumptions": [SHIM, FLOAT]},
    "C29": {"harness": ["old"], "technique": "exhaustive enumeration of a bounded set of Reich-Moore resonance ranges on the real code against a long double model of the collision matrix",
            "bounds": {"quick": "13 target spins x 5 radius options x every set of l 0..4 x APL patterns without resonances; 4 target spins x 5 radius options x 8 lists of l x APL x 0..3 resonances with every assignment of up to 4 signed J, 5 fission patterns, bound levels; 4, 9, 17, 33 resonances of one l (0..4) over every J of 4 target spins to 8 in 4 orders; every set of 2..5 l in rotated and reversed orders, each with its own APL, fission widths over 5 decades, 1 or 7 resonances each; 15 energies to 1.7e7 eV, each twice; radius tables, wave number and refusals as C28",
                       "thorough": "7 target spins, one more resonance; to 150 resonances of one l, to 20 of each of several l"},
            "assumptions": [SHIM, FLOAT]},
    "C30": {"harness": ["rm_keep"], "technique": "exhaustive enumeration of a bounded set of constructor arguments and of the ways to copy, move and assign, on the real code against a record of the arguments",
            "bounds": {"quick": "every combination of 3 to 10 values of each constructor argument of 17 classes (particles, pairs, channels of 4 kinds, resonances of 0..4 widths, tables of 0..4 resonances, channel data, spin groups of 1..5 channels, systems of 1..4 groups in every order, Breit-Wigner and unresolved counterparts) x as made, copied, copied with the original gone, moved, assigned, move assigned, assigned to itself; everything asked twice", "thorough": "0..7 widths, 0..7 resonances"},
            "assumptions": [SHIM]},
    "C31": {"harness": ["rm_keep"], "technique": "exhaustive enumeration of operation sequences up to a depth on the real code, against the arithmetic of each component alone",
            "bounds": {"quick": "all sequences of up to 3 of a + b, a - b, a += b, a -= b, a += a, a + a over 4 or 5 operands, for widths, fluctuation integrals, degrees of freedom and numbers", "thorough": "all sequences of up to 4"},
            "assumptions": [SHIM, FLOAT]},
}
