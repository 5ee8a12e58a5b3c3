import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
A="invoice/src/amount.rs"
p("C01","Amount arithmetic is exact or refused, never wrapped",
 "Adding, subtracting, summing or scaling token amounts gives the exact mathematical result whenever it fits into 64 bits. When it does not fit, the checked forms report it and leave the operands as they were, and the saturating forms and sums return the nearest representable amount. A unit with n decimals always scales by ten to the power n, and conversions between amounts, integers and contract state keep the number.",
 ["inputs"],"all pairs of 64-bit amounts and all 19 decimal precisions","No test exercises arithmetic at all; the property is about every pair of 64-bit values.",
 [A],[("Amount::checked_*/saturating_*",A+":75-155"),("Precision::multiplier/convert",A+":232-275")],observe=["Amount","Precision"])
p("C02","Splitting an amount into whole and fractional units loses nothing",
 "For every amount and every precision, the whole and the fractional part recombine to exactly the amount and the fractional part is less than one whole unit. Rounding down, up and to nearest (half up) return the corresponding number of whole units. A coin amount is constructed from parts exactly when the fraction is less than one unit, and keeps the parts and the precision.",
 ["inputs"],"all 64-bit amounts and all 19 precisions","Tests format three amounts with one precision; boundary amounts are not reached.",
 [A],[("Amount::split/floor/ceil/round/rem",A+":96-128"),("CoinAmount::new/with",A+":298-330")],observe=["Amount","CoinAmount"])
p("C03","Text forms of amounts and token allocations read back unchanged",
 "Every amount, every decimal coin amount and every token-fraction allocation written as text is read back as the same value, and different values have different texts. Text which denotes no such value, a number that does not fit, or more fractional digits than its precision, is refused and never read as a different number.",
 ["inputs"],"all amounts, coin amounts, allocations, and arbitrary texts","Tests parse a handful of literals.",
 [A,"invoice/src/data.rs"],[("Display/FromStr for Amount",A+":160-195"),("Display/FromStr for CoinAmount",A+":352-470"),("Display/FromStr for Allocation","invoice/src/data.rs")],observe=["to_string/parse of the public types"])
I="invoice/src/parse.rs"
p("C04","Invoices survive the URI form and mean the same network",
 "Every invoice - with any interface and contract, operation, assignment, state, beneficiary, network, expiry, transports and extra query parameters - is printed as a URI which parses back to an equal invoice. Network prefixes and networks correspond one to one, and a beneficiary is read on exactly the network its prefix names, with the address or seal and the closing method it was issued with. Malformed URIs are refused. The invoice builder sets exactly what it is asked for and refuses amounts which do not fit.",
 ["inputs"],"all invoices over the supported fields; all network prefixes; all query strings","Tests parse about thirty literal URIs, most of them without special characters.",
 [I,"invoice/src/invoice.rs","invoice/src/builder.rs"],[("Display/FromStr for RgbInvoice",I+":250-460"),("ChainNet table",I+":200-250"),("Pay2Vout encoding",I+":120-200"),("RgbInvoiceBuilder","invoice/src/builder.rs")],observe=["RgbInvoice::to_string/from_str"])
M="src/contract/merge_reveal.rs"
p("C05","Merging two copies of an operation never hides or alters what is known",
 "Merging two views of the same assignment, operation, bundle or witness yields the same commitment and reveals every seal, state and transition revealed in either view, and nothing else. Views of different operations or of different witnesses are refused. The result does not depend on which view comes first.",
 ["inputs","histories"],"all pairs of reveal states of the same data, any number of assignments","No test merges anything.",
 [M,"src/containers/anchors.rs"],[("MergeReveal for Assign/TypedAssigns/Assignments/TransitionBundle/Genesis/Transition/Extension",M+":93-294"),("MergeReveal for PubWitness/SealWitness","src/containers/anchors.rs:85-200")],observe=["MergeReveal::merge_reveal"])
S="src/contract/assignments.rs"
p("C06","Revealing a seal opens exactly the assignments which committed to it",
 "Revealing a seal replaces the concealed seal in every assignment whose concealed seal is that seal's concealment, keeping state, lock and position, and leaves all other assignments and all other data unchanged. This holds for single assignment lists, bundles and whole consignments, and no operation, bundle or contract identifier changes by it.",
 ["inputs"],"all seals, all assignment lists and consignments","No test reveals seals.",
 [S,"src/containers/anchors.rs","src/containers/consignment.rs"],[("TypedAssignsExt::reveal_seal",S+":204-240"),("WitnessBundle::reveal_seal","src/containers/anchors.rs"),("Consignment::reveal_terminal_seals","src/containers/consignment.rs")],observe=["assignment lists","Consignment::reveal_terminal_seals"])
ME="src/persistence/memory.rs"
p("C07","Only state whose witness is live is reported as contract state",
 "A contract view reports an assignment or a global state item exactly when it was defined in genesis or its witness is known and not archived. Updating the status of a witness is visible in every later view, archives or restores exactly the state it closes, and a bundle is used only through a witness which is live.",
 ["inputs","histories"],"all histories of witness status changes over all assignments","Tests never build contract state.",
 [S,ME,"src/persistence/state.rs","src/persistence/stock.rs"],[("OutputAssignment::check_witness",S+":188"),("StateInventory::is_valid_witness/select_valid_witness/update_witnesses","src/persistence/state.rs"),("MemContract state accessors",ME+":640-900")],observe=["ContractStateRead accessors"])
p("C08","Contract state is exactly what the accepted operations say",
 "After any sequence of accepted operations the contract state holds every revealed assignment and every global state item of those operations, under the right type, with the operation, position, seal and witness they came from, and nothing else. Accepting the same operation again or the operations in another order gives the same state. Global state is listed newest first, at most as many items as the schema permits.",
 ["histories"],"all sequences of operations, with repetition and reordering","Tests never build contract state.",
 [ME,"src/persistence/state.rs"],[("MemContractWriter/MemContractState::add_operation",ME),("GlobalStateIter",ME)],observe=["ContractStateRead/ContractStateWrite"])
p("C09","Index lookups return exactly what was registered",
 "After any sequence of registrations every operation leads to its bundle, every bundle to its contract and its witnesses, and every output and every concealed seal to exactly the operation outputs assigned to it, for an output separately in each contract. Registering the same fact again changes nothing, and a contradicting or unknown fact is refused without damaging earlier ones.",
 ["histories"],"all sequences of registrations and lookups","No test touches the index.",
 [ME,"src/persistence/index.rs"],[("IndexReadProvider/IndexWriteProvider for MemIndex",ME+":1190-1540"),("Index::index_bundle/index_consignment","src/persistence/index.rs")],observe=["IndexReadProvider"])
K="src/persistence/stock.rs"
p("C10","A stock update happens in all of its parts or in none",
 "An update which fails in the stash, the state or the index leaves none of the three committed: whichever step fails, every part whose transaction was started is rolled back and the caller gets an error. A successful update commits all three parts.",
 ["fault_sequences","crash_points"],"all fault positions in the three storage providers","No test injects faults.",
 [K,"src/persistence/stash.rs","src/persistence/state.rs","src/persistence/index.rs"],[("Stock::store_transaction",K),("StoreTransaction for Stash/State/Index","src/persistence/mod.rs")],observe=["StoreTransaction calls on the providers"])
p("C11","Trust is never invented: identities and signatures are stored as validated",
 "An identity rated malicious is never accepted and only trusted ones are used by default; an unrated identity counts as unknown. Of the signatures coming with a content exactly those by identities not rated malicious are stored, up to the limit of ten; none already stored is lost unless replaced by a newer one of the same identity, and an update for one content does not touch another. A contract carries the signatures and supplements of its own parts.",
 ["inputs","histories"],"all trust levels, signature sets and ratings","No test covers trust or signatures.",
 ["src/containers/util.rs",ME,"src/persistence/stash.rs"],[("TrustLevel","src/containers/util.rs:59-82"),("MemStash::import_sigs/set_trust",ME)],observe=["StashProvider"])
N="src/interface/inheritance.rs"
p("C12","An extended interface keeps every promise of its parents",
 "Extending an interface keeps every state, operation and error of the parent and only narrows requirements: no data type changes but to a narrower one, nothing required becomes optional, no least number of occurrences is lowered, no public state becomes private, and final operations are not overridden. A conflicting or abstract-violating extension is refused, and an accepted one contains exactly the features of both, but for optional operations which the parent does not have; both interfaces and their parents become its parents. An implementation abstracted to a parent binds exactly the names of this parent, to the same types. A schema inherits from a root exactly when it has no state, operation or argument which the root does not define in the same way.",
 ["inputs"],"all pairs of interface declarations","No test extends interfaces.",
 [N,"src/interface/iface.rs"],[("Modifier/Req/OwnedIface combination",N),("Iface::extended/IfaceImpl::abstracted",N)],observe=["Iface::expect_extended/extended"])
p("C13","An interface implementation maps names to schema types without ambiguity",
 "A consistent implementation gives every interface name exactly one schema type and back, lookups by name and by type are inverse, and unknown names or types find nothing. A check accepts an implementation exactly when every name of the interface is bound, no name is bound twice, everything is bound to an existing schema type, errors are known to the interface and the time is valid and past. A check accepts an interface exactly when its operations reference declared names only, as many as allowed, names of operations and defaults are unambiguous and required state is in the genesis. The implementation found for an interface is its own one, else that of the nearest parent.",
 ["inputs"],"all interfaces, schemas and implementations over them","Tests do not build implementations.",
 ["src/interface/iimpl.rs","src/interface/iface.rs"],[("IfaceImpl lookups","src/interface/iimpl.rs"),("IfaceImpl::check / Iface::check","src/interface/iimpl.rs")],observe=["IfaceImpl"])
p("C14","Builders put everything asked for into the operation, and nothing else",
 "A built genesis, transition or deterministic output contains every global state item, input, assignment, metadata and asset tag which was added, under the type the interface assigns to the name, and nothing that was not. Names unknown to the interface, states of another kind than the schema gives to the name, values of another type, unknown asset tags and seals on layers not enabled are refused, and a genesis which the schema does not allow is not issued.",
 ["inputs","histories"],"all sequences of builder calls","No test uses builders.",
 ["src/interface/builder.rs"],[("ContractBuilder/TransitionBuilder/OperationBuilder","src/interface/builder.rs")],observe=["issue/complete_transition"])
B="src/containers/partials.rs"
p("C15","Batches keep every transition, its inputs and its seal-closing methods",
 "The set of seal-closing methods is a true set: combining sets and methods keeps each of them and adds no other, and membership agrees. A transition prepared for a batch keeps its identifier, all of its inputs and their common closing method, and is refused when its inputs use different methods. A batch and a fascia yield each of their transitions and bundles exactly once, a batch reports exactly the methods of its transitions, and setting a priority changes the nonce of every transition, with its identifier, and nothing else.",
 ["inputs"],"all method sets, batches and transition input lists","No test builds batches.",
 [B],[("CloseMethodSet",B+":40-140"),("TransitionInfo::new",B),("Batch iteration and Dichotomy",B)],observe=["CloseMethodSet","Batch","TransitionInfo"])
p("C16","Containers keep their identity and content across files and armor",
 "Every kit, consignment and supplement written to a binary file or to ASCII armor reads back equal and with the same identifier. The identifier is a function of the content: equal containers have equal identifiers, and containers which differ in any part, down to the disclosed seals, terminals, attachments and signatures, have different ones. Foreign and truncated files are refused, and damaged armor is never read as another content. A refused annotation of a supplement changes nothing.",
 ["inputs","fault_sequences"],"all containers, single-character damages of armor, truncations of files","Tests armor and parse a few default values.",
 ["src/containers/file.rs","src/containers/consignment.rs","src/containers/kit.rs","src/containers/suppl.rs"],[("FileContent/UniversalFile","src/containers/file.rs"),("CommitEncode for Consignment/Kit","src/containers/consignment.rs")],observe=["save/load, to_ascii_armored_string"])
C="src/containers/anchors.rs"
p("C17","Anchors stay paired with the bundles they commit to",
 "An anchor set reports exactly the anchors and committed bundles it was made of, and each bundle of an anchored pair is always returned with the anchor of its own closing method. Combining a tapret part and an opret part of one witness keeps both, and combining parts of the same method is refused. Merging anchor sets keeps what either of them knows and refuses different commitments. Revealing a transition in a bundle adds just this transition, and one to which the bundle does not commit is refused.",
 ["inputs"],"all combinations of anchors and bundles","No test builds anchors.",
 [C],[("AnchorSet",C),("AnchoredBundles::into_double/iter",C),("ClientBundle::reveal_transition",C)],observe=["AnchorSet","AnchoredBundles"])
p("C18","Wallet history and allocations show each coin once and only own coins",
 "The contract data view lists exactly the assignments which pass the wallet's filter, with unaltered state; history marks an operation as issue, receipt, spending or unrelated exactly according to whether own inputs and outputs take part. Amounts of different types are never added together, and a total is the exact sum of the amounts listed (the largest amount if the sum does not fit).",
 ["inputs"],"all contract states and filters","No test covers history.",
 ["src/interface/contract.rs","src/interface/filter.rs"],[("ContractIface allocations/history","src/interface/contract.rs"),("AssignmentsFilter implementations","src/interface/filter.rs")],observe=["ContractIface"])
p("C19","Paying an invoice conserves the asset",
 "A composed payment spends only inputs of the paying wallet, pays the beneficiary exactly the requested amount, returns the exact remainder to the change seal, and carries over every other asset held by the spent outputs to the wallet. Payment is refused when inputs do not suffice.",
 ["inputs","histories"],"all invoices and input sets","No test composes payments.",
 [K],[("Stock::compose/compose_deterministic",K)],observe=["Batch returned by compose"])
p("C20","A transfer gives the receiver everything needed and nothing unrelated",
 "A consignment made for given outputs or seals contains genesis and every ancestor operation with its witness, passes validation for the receiver, and after acceptance the receiver's stock reports the transferred state. Operations of other contracts are not disclosed.",
 ["histories"],"all transfer histories","No test transfers anything.",
 [K],[("Stock::consign/transfer/accept_transfer",K)],observe=["Stock::transfer, accept_transfer"])
p("C21","Stored data is loaded back as it was saved",
 "A stock saved to disk and loaded again gives the same answers. Every committed change marks the store dirty, is written by the next save, and a store that failed to write stays dirty.",
 ["histories","crash_points"],"all sequences of changes, saves and loads","No test saves or loads a stock.",
 ["src/persistence/fs.rs",ME,K],[("FsStored/dirty flags","src/persistence/fs.rs")],observe=["files on disk","queries after load"])
p("C22","Names, tickers and token specifications accept exactly the permitted text",
 "A ticker, asset name, details text or precision-carrying asset specification is accepted exactly when its length and characters are permitted, prints as the text it was made of and reads back equal. Two tickers are equal when they differ only in letter case, and equality, ordering and hashing agree.",
 ["inputs"],"all strings up to the permitted length and beyond","Tests use a few literals.",
 ["src/stl/specs.rs"],[("Ticker/Name/Details/AssetSpec/ContractTerms","src/stl/specs.rs")],observe=["TryFrom/FromStr/Display of the types"])
import sys
ids=set()
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+"\n")
