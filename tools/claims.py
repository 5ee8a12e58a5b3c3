KANI = "Kani contracts on the real functions, full symbolic domain"
MIX = "contracts on the real functions: Kani where in reach, bounded evaluation of the same contracts elsewhere"
CLAIMS = {
 "C01": ("exploration", MIX, "amounts, token fractions, scaling and conversions proved for all 64-bit inputs and all precisions; sums proved for up to 3 terms of any value; precision bytes enumerated completely; conversion of revealed state sampled"),
 "C02": ("proof", KANI + ", one harness per precision (z3)", "all obligations over all 64-bit inputs and all precisions"),
 "C03": ("exploration", MIX, "reading of amounts proved for all amounts and, by length, for all ASCII texts of up to 17 characters; printing, coin amounts and allocations by bounded evaluation of the contracts"),
 "C04": ("exploration", MIX, "network tags and the byte form of hash beneficiaries proved for all inputs; taproot keys, texts, URIs and the builder by bounded evaluation of the contracts"),
 "C05": ("exploration", MIX, "merge of two assignments proved for all seals and states; lists of rights by Kani up to length 2; maps, operations, bundles and witnesses by bounded evaluation of the contracts"),
 "C06": ("exploration", MIX, "lists of rights by Kani up to length 2; other state kinds, bundles and consignments by bounded evaluation of the contracts"),
 "C07": ("exploration", MIX, "choice of a live witness by Kani for lists of up to 3; views and status updates by bounded evaluation over histories of up to 4 operations of two contracts"),
 "C08": ("exploration", MIX, "bounded evaluation of the contracts over histories of up to 4 operations in any order with repetitions in other views, and over consignments"),
 "C09": ("exploration", MIX, "bounded evaluation of the contracts: registration sequences over 3 contracts, 4 bundles and 5 outputs compared with a model after each step, terminals up to and over capacity, fascias and whole consignments through the stock"),
 "C10": ("exploration", MIX, "a fault at every single begin, write and commit of the three providers for kit, contract, fascia, transfer and seal updates, refused updates and failing disk writes, all enumerated completely over updates of up to 3 contracts, and all 512 outcomes of the nine provider steps"),
 "C11": ("exploration", MIX, "trust levels proved for all pairs; byte codes exhaustively; signature updates with up to 12 identities and contracts carried between two parties by bounded evaluation of the contracts"),
 "C12": ("exploration", MIX, "modifiers and kinds of owned state proved for all pairs; extensions with up to 3 names of each kind, limits, abstractions and schema inheritance by bounded evaluation of the contracts against a model"),
 "C13": ("exploration", MIX, "requirements proved for all kinds; lookups, checks of implementations and interfaces with up to 3 names of each kind and the choice of implementations for an interface or a class of interfaces by bounded evaluation of the contracts against a model"),
 "C14": ("exploration", MIX, "bounded evaluation of the contracts: genesis, blank, default and named transitions with up to 5 additions of all kinds, right and wrong, with given and with random blinding, and builders given out by a stock, compared with a model"),
 "C15": ("exploration", MIX, "method sets and pairs proved for all inputs; transition infos, batches of up to 4 entries and fascias by bounded evaluation of the contracts"),
 "C16": ("exploration", MIX, "bounded evaluation of the contracts: kits, contracts, transfers and supplements through files and armor, with every part altered, truncations and damages, and kits exported from a stock"),
 "C17": ("exploration", MIX, "bounded evaluation of the contracts: all method combinations, trees of 3 contracts, bundles of up to 3 transitions, consignments of up to 3 witnesses as the validator sees them"),
 "C18": ("exploration", MIX, "filters by Kani for all outpoints in lists of two; views and histories by bounded evaluation over contract states of up to 4 operations and all sets of own outpoints and transactions, compared with a model"),
 "C19": ("exploration", MIX, "bounded evaluation of the contract: payments out of 1 to 3 real contracts with up to 5 coins of four types on four outputs closed by two methods, compared with the coins issued"),
 "C20": ("exploration", MIX, "bounded evaluation of the contract: up to 4 payments of 1 or 2 contracts among three wallets with every consignment inspected, validated and accepted, compared with a ledger, and contracts exported from stocks with several versions of an interface"),
 "C21": ("exploration", MIX, "bounded evaluation of the contracts: histories of up to 5 updates of 8 kinds with saves and loads in between on files, and with failing writes of any parts, and stashes with pieces of 8 kinds saved one over another"),
 "C22": ("exploration", MIX, "bounded evaluation of the contracts: all strings of up to 2 characters of a wide alphabet and sampled ones around the limits, all pairs of short tickers"),
}
NOT_APPLICABLE = {}
NOTES = "Contracts live in contracts/src/cNN.rs; run/check.py discharges them with Kani and evaluates them natively."
