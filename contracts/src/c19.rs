//! C19: paying an invoice conserves the asset.
//# assumes: the stock knows the assignments of the spent outputs (C07, C08)

use std::collections::{BTreeMap, BTreeSet};

use amplify::Wrapper as _;
use bp::seals::txout::CloseMethod;
use bp::{Outpoint, Vout};
use commit_verify::Conceal;
use rgbcore::{
    Assign, AssignmentType, ContractId, Genesis, GraphSeal, Operation, Opout, OutputSeal,
    TypedAssigns, XChain, XOutputSeal,
};
use rgbinvoice::{
    AddressPayload, Beneficiary, ChainNet, Pay2Vout, RgbInvoice, RgbInvoiceBuilder, XChainNet,
};
use rgbstd::containers::{BuilderSeal, TransitionInfo};
use rgbstd::persistence::Stock;
use bp::PubkeyHash;

use crate::fx;
use crate::registry::{Contract, Kani, Property};
use crate::src::Src;
use crate::world::{self, Chain, Coin, KINDS};
use crate::{post, reach};

/// A piece of state without its blinding.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum St {
    Right,
    Amount(u64, rgbcore::AssetTag),
    Data(Vec<u8>),
    Other,
}

/// All the assignments: type, number, seal and state.
pub fn list<L: rgbcore::ExposedSeal>(
    a: &rgbcore::Assignments<L>,
) -> Vec<(AssignmentType, u16, BuilderSeal<L>, St)> {
    fn seal<S: rgbcore::ExposedState, L: rgbcore::ExposedSeal>(a: &Assign<S, L>) -> (BuilderSeal<L>, S) {
        match a {
            Assign::Revealed { seal, state, .. } => (BuilderSeal::Revealed(*seal), state.clone()),
            Assign::ConfidentialSeal { seal, state, .. } => (BuilderSeal::Concealed(*seal), state.clone()),
            _ => panic!("concealed state"),
        }
    }
    let mut out = vec![];
    for (ty, t) in a.iter() {
        match t {
            TypedAssigns::Declarative(v) => {
                out.extend(v.iter().enumerate().map(|(i, a)| (*ty, i as u16, seal(a).0, St::Right)))
            }
            TypedAssigns::Fungible(v) => out.extend(v.iter().enumerate().map(|(i, a)| {
                let (l, s) = seal(a);
                (*ty, i as u16, l, St::Amount(u64::from(s.value), s.tag))
            })),
            TypedAssigns::Structured(v) => out.extend(v.iter().enumerate().map(|(i, a)| {
                let (l, s) = seal(a);
                (*ty, i as u16, l, St::Data(s.value.as_inner().to_vec()))
            })),
            TypedAssigns::Attachment(v) => {
                out.extend(v.iter().enumerate().map(|(i, a)| (*ty, i as u16, seal(a).0, St::Other)))
            }
        }
    }
    out
}

/// What a genesis assigns: input, where it is and what it is.
#[derive(Clone, Debug)]
struct Held {
    opout: Opout,
    outpoint: Outpoint,
    method: CloseMethod,
    st: St,
}

fn held(g: &Genesis) -> Vec<Held> {
    list(&g.assignments)
        .into_iter()
        .map(|(ty, no, seal, st)| {
            let BuilderSeal::Revealed(XChain::Bitcoin(s)) = seal else { panic!("revealed") };
            Held { opout: Opout::new(g.id(), ty, no), outpoint: Outpoint::new(s.txid, s.vout), method: s.method, st }
        })
        .collect()
}

fn draw_coins<S: Src>(s: &mut S, max: u32) -> Vec<Coin> {
    (0..s.below(max + 1))
        .map(|i| {
            let kind = [0, 0, 1, 2, 4, 1][s.below(6) as usize];
            // outputs 8.. are closed by the other method
            let seal = [1, 2, 8, 9][s.below(4) as usize];
            Coin { kind, seal, value: if kind == 1 { i as u64 % 3 } else { 1 + s.below(20) as u64 } }
        })
        .collect()
}

fn pay<S: Src>(s: &mut S) {
    let mut stock: Stock = world::stock();
    let chain = Chain::default();
    let n = 1 + s.below(3);
    let mut all = BTreeMap::<ContractId, Vec<Held>>::new();
    let mut ids = vec![];
    for i in 0..n {
        let sch = if i == 0 { 0 } else { s.below(2) };
        let coins = draw_coins(s, if i == 0 { 5 } else { 3 });
        let c = world::issue(sch, i, &coins, CloseMethod::OpretFirst);
        ids.push(c.genesis.contract_id());
        all.insert(c.genesis.contract_id(), held(&c.genesis));
        stock.import_contract(c, &chain).unwrap();
    }
    let main = ids[0];
    // the outputs to spend
    let method = fx::method(s.below(2));
    let mut prev = vec![];
    for o in [1u32, 2, 8, 9] {
        if s.below(3) > 0 {
            let m = if o < 8 { CloseMethod::OpretFirst } else { CloseMethod::TapretFirst };
            prev.push((world::genesis_outpoint(o), m));
        }
    }
    let seals: Vec<XOutputSeal> =
        prev.iter().map(|(o, m)| XChain::Bitcoin(OutputSeal::with(*m, o.txid, o.vout))).collect();
    let spent = |id: &ContractId| -> Vec<Held> {
        all[id].iter().filter(|h| prev.iter().any(|(o, _)| *o == h.outpoint)).cloned().collect()
    };

    // the invoice
    let wrong = if s.below(6) == 5 { 1 + s.below(6) } else { 0 };
    let field = [0usize, 0, 4, 1, 2][s.below(5) as usize];
    let ty = KINDS[field].0;
    let by_default = field == 0 && s.bool();
    let mine = spent(&main);
    let total: u64 = mine
        .iter()
        .filter(|h| h.opout.ty == ty)
        .map(|h| if let St::Amount(a, _) = h.st { a } else { 0 })
        .sum();
    let secret = fx::graph_seal(0, 77);
    let witness_vout = s.bool();
    let payload = Pay2Vout {
        method: fx::method(s.below(2)),
        address: AddressPayload::Pkh(PubkeyHash::from([7u8; 20])),
    };
    let beneficiary =
        if witness_vout { Beneficiary::WitnessVout(payload) } else { Beneficiary::BlindedSeal(secret.conceal()) };
    let mut b = RgbInvoiceBuilder::new(XChainNet::with(ChainNet::BitcoinTestnet, beneficiary));
    if wrong != 1 {
        b = b.set_contract(if wrong == 2 { fx::contract_id(5) } else { main });
    }
    b = b.set_interface(if wrong == 3 { "Face1" } else { "Face0" });
    if wrong == 4 {
        b = b.set_operation("unheard");
    } else if s.bool() {
        b = b.set_operation("transfer");
    }
    if !by_default || wrong == 5 {
        b = b.set_assignment(if wrong == 5 { "nobody" } else { KINDS[field].1 });
    }
    let as_data = s.below(4) == 0;
    let token = s.below(3) as u64;
    let amount = match s.below(5) {
        0 => total + 1,
        1 => total,
        2 => 0,
        _ => s.below(20) as u64,
    };
    let mut invoice: RgbInvoice = if as_data {
        b.set_allocation_raw(world::alloc(token)).finish()
    } else {
        b.set_amount_raw(amount).finish()
    };
    let unsupported = wrong == 6;
    if unsupported {
        invoice.owned_state = rgbinvoice::InvoiceState::Void;
    }
    let give_vout = if s.below(8) == 7 { !witness_vout } else { witness_vout };
    let bvout = if give_vout { Some(Vout::from_u32(1)) } else { None };

    // where the wallet puts the rest: a different output for each type, the first
    // of them may be the one with the beneficiary
    let base = 1 + s.below(2);
    let none_for = if s.below(6) == 5 { Some(KINDS[s.below(5) as usize].0) } else { None };
    let vout_of = |t: AssignmentType| base + (t.into_inner() - 4000) as u32 % 3;
    let allocator = |_: ContractId, t: AssignmentType, _| {
        if Some(t) == none_for {
            None
        } else {
            Some(Vout::from_u32(vout_of(t)))
        }
    };
    let det = s.bool();
    let r = if det {
        stock.compose_deterministic(
            &invoice,
            seals,
            method,
            bvout,
            3,
            allocator,
            |_, t| world::blinding(40 + t.into_inner() as u32 % 10),
            |_, t| 5 + t.into_inner() as u64,
        )
    } else {
        stock.compose(&invoice, seals, method, bvout, allocator)
    };

    // whether there is enough
    let others: Vec<(ContractId, Vec<Held>)> =
        ids[1..].iter().map(|i| (*i, spent(i))).filter(|(_, h)| !h.is_empty()).collect();
    let token_bytes = rgbcore::DataState::from(world::alloc(token)).as_inner().to_vec();
    let fungible = field == 0 || field == 4;
    let same_type = mine.iter().filter(|h| h.opout.ty == ty).count();
    let suffices = if as_data {
        mine.iter().any(|h| h.opout.ty == ty && h.st == St::Data(token_bytes.clone()))
    } else {
        total >= amount
    } && !mine.is_empty();
    let mut needs: BTreeSet<AssignmentType> =
        others.iter().flat_map(|(_, h)| h.iter().map(|h| h.opout.ty)).collect();
    needs.extend(mine.iter().map(|h| h.opout.ty).filter(|t| *t != ty));
    let change = if as_data { same_type > 1 } else { total > amount || (!fungible && same_type > 0) };
    if change {
        needs.insert(ty);
    }
    let routed = none_for.map(|t| !needs.contains(&t)).unwrap_or(true);
    let sane = wrong == 0 && give_vout == witness_vout;
    if sane && suffices && none_for.is_none() {
        reach!(s, method == CloseMethod::TapretFirst, "other method");
        reach!(s, !others.is_empty(), "other contracts on the outputs");
        reach!(s, as_data, "token paid");
        reach!(s, as_data && same_type > 1, "token paid out of several");
        reach!(s, change && !as_data, "change");
        reach!(s, mine.iter().any(|h| h.method != method) && mine.iter().any(|h| h.method == method), "both methods");
        post!(r.is_ok(), "payment: made when the inputs suffice");
    }
    if !(sane && suffices && routed) {
        reach!(s, sane && routed && !suffices, "insufficient");
        reach!(s, sane && suffices, "nowhere to put the rest");
        reach!(s, wrong == 4, "unknown operation");
        reach!(s, wrong == 6, "unsupported state");
        post!(r.is_err(), "payment: refused when it can't be made");
    }
    let Ok(batch) = r else { return };

    let infos: Vec<TransitionInfo> = batch.main.iter().cloned().collect();
    let blanks: Vec<TransitionInfo> = batch.blanks.iter().flat_map(|d| d.iter().cloned()).collect();
    post!(infos.iter().all(|i| i.transition.contract_id == main), "main: belongs to the contract of the invoice");
    post!(
        infos.iter().all(|i| i.transition.transition_type == world::TRANSFER),
        "main: is the operation of the invoice"
    );
    post!(
        blanks.iter().all(|i| i.transition.contract_id != main && i.transition.transition_type.is_blank()),
        "blanks: for the other contracts"
    );
    if det {
        post!(infos.iter().chain(&blanks).all(|i| i.transition.nonce == 3), "priority: set in all");
    }
    // the same output serves both, so that they are told by the sum only
    let shared = witness_vout && vout_of(ty) == 1 && payload.method == method;
    let is_beneficiary = |l: &BuilderSeal<GraphSeal>, t: AssignmentType| match l {
        BuilderSeal::Concealed(x) => !witness_vout && *x == XChain::Bitcoin(secret.conceal()),
        BuilderSeal::Revealed(XChain::Bitcoin(g)) => {
            witness_vout
                && t == ty
                && *g == GraphSeal::with_blinded_vout(payload.method, 1u32, g.blinding)
        }
        _ => false,
    };
    for (id, held) in std::iter::once((main, mine.clone())).chain(others.iter().cloned()) {
        let ts: Vec<&TransitionInfo> =
            infos.iter().chain(&blanks).filter(|i| i.transition.contract_id == id).collect();
        // inputs
        let mut got: Vec<Opout> =
            ts.iter().flat_map(|i| i.transition.inputs.iter().map(|x| x.prev_out)).collect();
        got.sort();
        let mut want: Vec<Opout> = held.iter().map(|h| h.opout).collect();
        want.sort();
        post!(got == want, "inputs: all the state on the outputs and nothing else");
        for i in &ts {
            let mine: Vec<&Held> =
                held.iter().filter(|h| i.transition.inputs.iter().any(|x| x.prev_out == h.opout)).collect();
            post!(mine.iter().all(|h| h.method == i.method), "inputs: of one closing method");
            let outs: BTreeSet<Outpoint> = mine.iter().map(|h| h.outpoint).collect();
            let known: BTreeSet<Outpoint> = i.inputs.iter().map(|o| world::raw(*o)).collect();
            post!(outs == known, "inputs: their outputs are listed");
            post!(i.id == i.transition.id(), "id: of the transition");
            conserved(s, i, &mine);
        }
        // outputs
        let mut wallet = BTreeMap::<AssignmentType, Vec<(GraphSeal, St)>>::new();
        let mut paid = vec![];
        for (t, _, l, st) in ts.iter().flat_map(|i| list(&i.transition.assignments)) {
            if id == main && is_beneficiary(&l, t) {
                paid.push((t, st));
                continue;
            }
            let BuilderSeal::Revealed(XChain::Bitcoin(g)) = l else {
                post!(false, "outputs: only the beneficiary and the wallet get state");
                return;
            };
            post!(
                g == GraphSeal::with_blinded_vout(method, vout_of(t), g.blinding),
                "outputs: the rest goes to the output chosen by the wallet"
            );
            wallet.entry(t).or_default().push((g, st));
        }
        reach!(s, shared && paid.len() > 1, "beneficiary and change share an output");
        for k in KINDS.iter().map(|k| k.0) {
            let before: Vec<&Held> = held.iter().filter(|h| h.opout.ty == k).collect();
            let mut kept: Vec<St> = wallet.remove(&k).unwrap_or_default().into_iter().map(|x| x.1).collect();
            kept.sort();
            if id == main && k == ty {
                if as_data {
                    let want = vec![(ty, St::Data(token_bytes.clone()))];
                    let mut rest: Vec<St> = before.iter().map(|h| h.st.clone()).collect();
                    if !shared {
                        post!(paid == want, "beneficiary: gets exactly the token");
                        let p = rest.iter().position(|x| *x == want[0].1).unwrap();
                        rest.remove(p);
                    } else {
                        kept.extend(paid.iter().map(|p| p.1.clone()));
                        kept.sort();
                    }
                    rest.sort();
                    post!(kept == rest, "change: the other tokens stay in the wallet");
                } else {
                    if !fungible {
                        let mut want: Vec<St> = before.iter().map(|h| h.st.clone()).collect();
                        want.sort();
                        post!(kept == want && paid.is_empty(), "rest: state which is not an amount is not paid");
                    }
                    let p: u64 = paid.iter().map(|(_, s)| if let St::Amount(a, _) = s { *a } else { 0 }).sum();
                    let c: u64 = kept.iter().map(|s| if let St::Amount(a, _) = s { *a } else { 0 }).sum();
                    if !shared {
                        post!(p == amount, "beneficiary: gets exactly the amount");
                    } else {
                        post!(amount == 0 || paid.iter().any(|(_, s)| matches!(s, St::Amount(a, _) if *a == amount)) || infos.len() > 1, "beneficiary: is paid");
                    }
                    post!(p + c == total, "change: is the exact remainder");
                }
            } else {
                // unaltered
                let mut want: Vec<St> = before.iter().map(|h| h.st.clone()).collect();
                want.sort();
                post!(kept == want, "rest: all other state is carried over");
            }
        }
        post!(wallet.is_empty(), "outputs: of known types");
    }
    let known: BTreeSet<ContractId> = others.iter().map(|o| o.0).chain([main]).collect();
    post!(
        infos.iter().chain(&blanks).all(|i| known.contains(&i.transition.contract_id)),
        "batch: contracts not on the outputs take no part"
    );
}

/// Within a transition the sums by type agree, so that it is valid.
fn conserved<S: Src>(s: &mut S, i: &TransitionInfo, mine: &[&Held]) {
    for k in KINDS.iter().map(|k| k.0) {
        let before: u64 = mine
            .iter()
            .filter(|h| h.opout.ty == k)
            .map(|h| if let St::Amount(a, _) = h.st { a } else { 0 })
            .sum();
        let after: u64 = list(&i.transition.assignments)
            .iter()
            .filter(|a| a.0 == k)
            .map(|a| if let St::Amount(x, _) = a.3 { x } else { 0 })
            .sum();
        reach!(s, before > 0, "amounts moved");
        post!(before == after, "transition: the sum of amounts of each type is kept");
        let tags: BTreeSet<_> = mine
            .iter()
            .filter(|h| h.opout.ty == k)
            .filter_map(|h| if let St::Amount(_, t) = h.st { Some(t) } else { None })
            .collect();
        post!(
            list(&i.transition.assignments).iter().all(|a| a.0 != k
                || match a.3 {
                    St::Amount(_, t) => tags.contains(&t),
                    _ => true,
                }),
            "transition: amounts keep their asset tag"
        );
    }
}

pub const PROPERTY: Property = Property {
    id: "C19",
    module: "c19",
    findings: &[],
    contracts: &[Contract {
        name: "pay",
        f: pay,
        fns: &["Stock::compose", "Stock::compose_deterministic", "Stock::contract_assignments_for", "Stock::contracts_assigning", "Stash::transition_builder", "Stash::blank_builder", "TransitionInfo::new", "Batch::set_priority"],
        kani: Kani::No,
        native: "1..3 contracts of two schemata with up to 5 coins of four types on four outputs closed by two methods; amount and token invoices to blinded seals and witness outputs, right and wrong; with and without deterministic blinding",
        reach: &["other method", "other contracts on the outputs", "token paid", "token paid out of several", "change", "both methods", "insufficient", "nowhere to put the rest", "unknown operation", "unsupported state", "beneficiary and change share an output", "amounts moved"],
    }],
};
