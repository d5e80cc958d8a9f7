#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here, one call per property)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"), s)) for s in state],
            mechanism=[dict(zip(("name","where"), m)) for m in mech],
            observe_at=list(observe), hook_needed=hook)))

HOOK = "read-only list of the commodities and recorded prices, and the price lookup (src/verif.rs, --cfg ledger_verif)"

prop("C01", "Every accepted transaction balances, and only those are accepted",
 "Every transaction of a successfully read journal balances: per commodity, the values of its postings (the cost where there is one, with the sign of the amount, otherwise the amount) add up to zero. A transaction whose fully specified postings do not balance and are not an exchange of two commodities is rejected loudly, and a transaction that does balance is accepted.",
 ["inputs","histories"], "all journals, with any number of postings, commodities, costs, signs and decimals, at any position in the journal",
 "The tests read a handful of two-posting transactions and never look at the sum; no test has an unbalanced transaction.",
 ["src/xact.rs","src/balance.rs","src/parser.rs"],
 [("balance accumulation and the final check","src/xact.rs finalize"),("per-commodity sums","src/balance.rs Balance::add")],
 [("Xact.posts","the postings with amounts and costs","src/xact.rs")], ["Journal.xacts after parse_text/parse_file/read","panic of the read"])

prop("C02", "The omitted amount is exactly what balances the transaction",
 "When exactly one posting of a transaction has no amount and the others leave a remainder in one commodity, that posting gets the exact negation of the remainder in that commodity, wherever the posting stands. Every posting of an accepted transaction has an amount, and a transaction with two omitted amounts, or with one and remainders in several commodities, is rejected.",
 ["inputs"], "all transactions with one or more omitted amounts, in any position, with or without costs, any signs and decimals",
 "The tests omit the amount only in the last of two postings, nearly always against one positive integer.",
 ["src/xact.rs","src/amount.rs"], [("null posting","src/xact.rs finalize"),("Amount::inverse","src/amount.rs")],
 [("null_post","the posting without the amount","src/xact.rs finalize")], ["Post.amount"])

prop("C03", "Postings are recorded exactly as written",
 "For every posting written with an amount, the journal records exactly that account name, quantity (the exact decimal value and number of decimals, sign included) and commodity symbol, and the postings and transactions are in the order and number of the text. The symbol may be written before or after the number, with or without a space, with the same meaning.",
 ["inputs"], "all posting lines of the supported syntax: account names with spaces and any Unicode, numbers of up to 28 digits, symbols on either side",
 "Tests sample a few lines, mostly integers with EUR; exactness over all decimals, layouts and names is a universal statement.",
 ["src/scanner.rs","src/parser.rs","src/amount.rs"], [("scan_post, scan_amount, scan_quantity, scan_symbol","src/scanner.rs"),("parse_post, parse_amount_parts","src/parser.rs"),("Quantity::from_str","src/amount.rs")],
 [], ["Journal.xacts[].posts[]"])

prop("C04", "The account tree is exactly the accounts named, each one once",
 "The account tree consists of exactly the accounts named in postings (or registered) together with all their ancestors, each existing once under its own parent, whatever the order in which they first appear. Full names equal the written names, and every posting refers to the account of its name.",
 ["inputs","histories"], "all sequences of account names: any depth, number of siblings, shared prefixes, repeated component names",
 "Tests have at most three siblings and two levels; identity over growing trees is a property of histories.",
 ["src/account.rs","src/journal.rs"], [("find_or_create, create_account, fullname","src/account.rs"),("register_account","src/journal.rs")],
 [("Account.accounts","children by name","src/account.rs"),("Account.parent","the parent link","src/account.rs")], ["flatten_account_tree, fullname, Post.account"])

prop("C05", "An account's own balance is the sum of its postings",
 "For every account and commodity, the account's own amount equals the exact sum of the amounts of the postings made to that very account, and the account lists every one of those postings exactly once and in journal order. Accounts without postings have an empty balance, and costs do not affect it.",
 ["inputs","histories"], "all journals and all accounts, including parents that have postings of their own, after any number of reads",
 "Tests check a few totals with one or two postings per account.",
 ["src/account.rs","src/balance.rs","src/xact.rs"], [("Account::amount","src/account.rs"),("linking of the posts in finalize","src/xact.rs"),("Balance::add","src/balance.rs")],
 [("Account.posts","pointers to the postings","src/account.rs")], ["Account::amount(), Account.posts"])

prop("C06", "Account totals roll up through the tree",
 "For every account, the total equals the exact per-commodity sum of its own amount and of the own amounts of all its descendants, each counted once, with no commodity lost, merged or duplicated. The total of the root account is the sum of all postings of the journal.",
 ["inputs","histories"], "all account trees and journals, any number of commodities per account",
 "Tests cover trees of two levels and one or two commodities.",
 ["src/account.rs","src/balance.rs"], [("Account::total","src/account.rs"),("Balance += Balance","src/balance.rs")], [], ["Account::total()"])

prop("C07", "The balance report shows every account once with its total",
 "The balance report has exactly one line per account, the root first, depth first, siblings sorted by name, and each line names the full account and shows, for every commodity of the total, the exact quantity once, and nothing else.",
 ["inputs"], "all journals", "Tests compare the report of six small files.",
 ["src/report.rs","src/account.rs"], [("get_children_lines","src/report.rs")], [], ["report::balance_report"])

prop("C08", "The accounts report lists every account exactly once",
 "The accounts report contains exactly one entry (the account's name, empty for the root) for every account of the tree, including parents without postings and accounts with equal names under different parents; called as a function it lists them in the order of the balance report (every account directly followed by its subtree, siblings by name), and as a command its output is sorted. Reports do not change the journal.",
 ["inputs"], "all journals", "Tests look at one or two tiny trees.",
 ["src/report.rs","src/account.rs","src/lib.rs"], [("report_accounts","src/report.rs"),("flatten_account_tree","src/account.rs"),("execute_command","src/lib.rs")], [], ["report::report_accounts","run(accounts)"])

prop("C09", "Cross-references stay valid while the journal grows",
 "At every point of a journal's life every posting refers to the transaction that contains it, to an account of the tree and to commodities of the pool, and every posting listed by an account is a posting of a transaction in the journal. This holds no matter how many transactions, postings, accounts and commodities are added afterwards, by one read or by many.",
 ["histories","inputs"], "all histories of reads and registrations, of any size",
 "Tests hold a few entities, fewer than the collections' initial capacities, so that nothing ever moves.",
 ["src/journal.rs","src/xact.rs","src/account.rs","src/pool.rs","src/post.rs"], [("add_xact","src/journal.rs"),("linking in finalize","src/xact.rs"),("boxed accounts","src/account.rs"),("boxed commodities","src/pool.rs")],
 [("Post.xact_ptr, Post.account, Amount.commodity, Account.posts","the raw links","src/post.rs, src/amount.rs, src/account.rs")], ["pointer identity of the public fields"])

prop("C10", "One commodity per symbol",
 "The commodity pool holds exactly one commodity for every symbol that occurs in amounts, costs, lot prices or price directives, and none for amounts without a symbol. Amounts with the same symbol share that commodity, those with different symbols never do, and looking a symbol up finds the commodity of that symbol or nothing.",
 ["inputs","histories"], "all journals, any number of symbols, any Unicode symbols, symbols that are prefixes of each other",
 "Tests use at most three symbols.",
 ["src/pool.rs","src/parser.rs","src/commodity.rs"], [("find_or_create, create, find","src/pool.rs")], [("CommodityPool.commodities","symbol to commodity","src/pool.rs")], ["CommodityPool::find, len, Amount::get_commodity"], HOOK)

prop("C11", "Costs are the unit price times the quantity, or the total as written",
 "A posting's cost is the exact product of the written unit price and the quantity (negative for sales) when given with @, and exactly the written total when given with @@, in the written commodity; the amount itself is unaffected. Postings written without a cost have none, except for the implied exchange of two commodities.",
 ["inputs"], "all amounts and costs: signs, decimals, symbol before or after, with or without spaces around @",
 "Tests have four cost examples with integers or two decimals.",
 ["src/parser.rs","src/scanner.rs","src/amount.rs"], [("parse_cost","src/parser.rs"),("scan_cost","src/scanner.rs"),("Amount *=","src/amount.rs")], [], ["Post.cost, Post.amount"])

prop("C12", "An exchange of two commodities gets the implied cost",
 "When all amounts are given, no posting has a cost and exactly two commodities remain with opposite signs, the postings in the commodity of the first posting (and only those) get a cost in the other commodity at the ratio of the two remainders, with the sign of the amount, so that the transaction balances. All amounts stay as written, and nothing is implied in any other transaction.",
 ["inputs"], "all transactions with two commodities, any number and order of postings, any signs and decimals",
 "One test file with one posting per commodity.",
 ["src/xact.rs","src/amount.rs"], [("implied cost","src/xact.rs finalize"),("Amount / Amount, abs","src/amount.rs")], [], ["Post.cost"])

prop("C13", "Every cost establishes a market price",
 "Every posting with a non-zero cost, given or implied, records the price of one unit of its commodity in the commodity of the cost (cost divided by quantity, never negative) at the date of the transaction, 00:00, and a later entry for the same commodities and moment replaces the earlier one. Postings without a cost record no price.",
 ["inputs","histories"], "all journals with costs, in any order of dates",
 "Tests look at one price of one purchase.",
 ["src/xact.rs","src/pool.rs","src/history.rs"], [("exchange","src/pool.rs"),("add_price","src/history.rs"),("finalize","src/xact.rs")], [("price map of an edge","time to price","src/history.rs")], ["price graph"], HOOK)

prop("C14", "Price directives are recorded exactly",
 "Every price directive, read from a journal or given to the commodity pool, records exactly the written quantity as the price of the first commodity in the second one at exactly the written date and time (00:00:00 when there is no time), and so does every price added to the pool as values. Prices are directed, a later one for the same moment replaces the earlier, all other recorded prices stay, and no other prices exist than those of directives, additions and costs.",
 ["inputs","histories"], "all sequences of price directives and transactions",
 "Two tests with a single directive.",
 ["src/pool.rs","src/scanner.rs","src/parser.rs","src/history.rs"], [("parse_price_directive","src/pool.rs"),("scan_price_directive","src/scanner.rs"),("price_xact_directive","src/parser.rs")], [], ["price graph"], HOOK)

prop("C15", "Price lookup: the latest prices along a shortest chain",
 "Looking up the price of one commodity in another returns a result exactly when a chain of recorded prices leads from the first to the second; the result is the product of the latest recorded price of each link of a chain with the fewest links, in the target commodity, dated with the oldest of those prices. The lookup depends only on what is recorded, not on the order of recording or on the clock.",
 ["inputs","histories"], "all price graphs, including cycles, disconnected parts, several chains of equal length and several dates per pair",
 "Two tests: one direct price and one chain of two links.",
 ["src/history.rs"], [("find_price, calculate_rate, get_direct_price, get_latest_price","src/history.rs")], [], ["find_price (crate private)"], HOOK)

prop("C16", "Transaction headers are recorded exactly",
 "Every transaction records exactly the date, the optional auxiliary date, the payee (trimmed; \"Unknown Payee\" when there is none) and the note (after two spaces and a semicolon, trimmed; none when empty) of its header line. Dates that do not exist are rejected.",
 ["inputs"], "all header lines of the form DATE[=DATE] [PAYEE][  ;NOTE], all calendar dates, any Unicode text",
 "Four header tests with ordinary dates.",
 ["src/scanner.rs","src/xact.rs","src/parser.rs"], [("tokenize_xact_header","src/scanner.rs"),("Xact::create","src/xact.rs"),("parse_date","src/parser.rs")], [], ["Xact.date, aux_date, payee, note"])

prop("C17", "Note lines attach to the entity they follow",
 "An indented note line inside a transaction is added to the transaction when no posting precedes it and otherwise to the nearest posting above it, and to nothing else; the text is kept exactly (trimmed), several notes are kept in order on separate lines, and empty notes add nothing. Notes never change accounts, amounts or balances.",
 ["inputs"], "all arrangements of note lines and postings in a transaction", "One test with one note after a header and one after a posting.",
 ["src/parser.rs","src/xact.rs","src/post.rs"], [("parse_trailing_note","src/parser.rs"),("add_note","src/xact.rs, src/post.rs")], [], ["Xact.note, Post.note"])

prop("C18", "Layout and comments do not change the meaning",
 "Top-level comments, blank lines, whitespace-only lines, Windows line ends, trailing spaces, a missing final newline, deeper indentation and wider gaps between the account and the amount do not change what is read: journals that differ only in these give the same transactions, accounts, balances, prices and reports.",
 ["inputs"], "all journals and all combinations of these layout variations at all places", "Tests try one variation at one place each.",
 ["src/parser.rs","src/scanner.rs"], [("read_next_directive, xact_directive","src/parser.rs"),("scan_post","src/scanner.rs")], [], ["the whole journal after reading"])

prop("C19", "Sources compose: pieces, files and includes equal one text",
 "Reading a journal in pieces (cut between directives), from several files, through include directives or through a reader that delivers the bytes in arbitrary portions gives the same journal as reading the concatenated text at once. Each read returns the number of transactions it added, included ones counted.",
 ["inputs","histories","schedules"], "all ways to cut a journal between directives and to distribute it over reads, files and includes, all sizes of the portions delivered by the reader",
 "Tests read one file each; one test reads two files.",
 ["src/parser.rs","src/journal.rs","src/lib.rs"], [("Parser::parse, include_directive","src/parser.rs"),("Journal::read","src/journal.rs"),("parse_file, parse_text, session_read_journal_files","src/lib.rs")], [], ["the whole journal after reading","Journal::read result"])

prop("C20", "Malformed, missing or unreadable input is never accepted silently",
 "Input that cannot be read completely is never presented as a complete journal: a malformed date, number, cost, lot or price directive, a cost or symbol without a quantity, unexpected text after an amount, an indented line outside a transaction, an unsupported directive, a missing or unreadable (also included) file, invalid UTF-8 or a failing reader all make the read fail loudly. A read that succeeds has recorded every transaction and posting of its input. The same holds for commands run on such files.",
 ["inputs","fault_sequences","crash_points"], "all malformed lines at any position of otherwise valid journals, and a reader fault after any number of bytes",
 "No test reads malformed input or uses a failing reader.",
 ["src/parser.rs","src/scanner.rs","src/pool.rs","src/annotate.rs","src/lib.rs"], [("panic on errors","src/parser.rs parse, xact_directive, parse_amount_parts, include_directive"),("File::open expect","src/lib.rs parse_file")], [], ["panic of the call"])

prop("C21", "History is append-only",
 "Reading more into a journal only appends: the transactions read before keep their positions and contents, accounts and commodities are never removed or renamed, recorded prices never disappear, and own balances change only by the postings appended. A transaction that is rejected adds nothing to the balance of any account and leaves the transactions and balances read before as they were.",
 ["histories","fault_sequences"], "all sequences of successful and failing reads into one journal", "No test reads twice into a journal and compares, and none continues after a failure.",
 ["src/journal.rs","src/parser.rs","src/xact.rs"], [("add_xact","src/journal.rs"),("linking at the end of finalize","src/xact.rs")], [], ["the whole journal before and after a read"])

prop("C22", "Lookups are exact and change nothing",
 "Looking up an account by its full name returns the account with exactly that full name, or nothing when there is none (also for unknown sub-accounts of existing accounts and for different case), and never creates one; the same holds for commodities by symbol. Registering an existing account returns the existing one, and registering a new one creates exactly it and its missing ancestors, without postings.",
 ["inputs","histories"], "all journals, all names: existing, prefixes, extensions, case variants, repeated components", "Tests look up existing names and one or two missing ones.",
 ["src/account.rs","src/journal.rs","src/pool.rs"], [("find_account, find_or_create","src/account.rs"),("register_account, find_account","src/journal.rs"),("find, find_index","src/pool.rs")], [], ["find_account, register_account, CommodityPool::find"])

prop("C23", "Commands report on exactly the given files",
 "Running a command (as an argument vector, as a command string, or with the binary) reads exactly the files given with -f, in the given order, and returns the report of that journal: b, bal and balance are the balance report, accounts the sorted accounts report. The position of the options relative to the command makes no difference, several short options may be grouped (-ff A B), and options or commands that are not supported, a missing command or a missing file name fail loudly.",
 ["configurations","inputs"], "all argument vectors of these commands, options and files", "Tests run a few fixed command lines with the command first.",
 ["src/lib.rs","src/option.rs","src/main.rs"], [("run, run_command, execute_command","src/lib.rs"),("process_arguments, get_input_options","src/option.rs"),("main","src/main.rs")], [], ["run, run_command, the binary's output"])

prop("C24", "Amount arithmetic is exact and keeps commodities apart",
 "Adding, subtracting, multiplying, negating and taking the absolute value of amounts and quantities is exact in decimal, and dividing gives the quotient to at least 20 significant digits (or 27 decimals). The result has the commodity of the left operand (of the right one when the left has none, in products and quotients), adding or subtracting amounts of different commodities never succeeds, and operands are unchanged. Integers and decimal texts convert to exactly their value, and text that is not a number to no quantity.",
 ["inputs"], "all amounts within the decimal range: signs, zeros, decimals, with and without commodities", "Tests check five or six integer examples.",
 ["src/amount.rs"], [("operator implementations, abs, inverse, invert, is_zero","src/amount.rs")], [], ["Amount and Quantity operators"])

prop("C25", "The output is deterministic",
 "The same journal text gives the same transactions, accounts, balances, prices, lookups and reports in every process and every run, in the same order and to the character. Nothing depends on hash seeds, addresses, the clock or on reports produced before.",
 ["schedules","inputs"], "all journals, all hash seeds and address layouts", "A test runs once, in one process, with one hash seed.",
 ["src/account.rs","src/report.rs","src/pool.rs","src/history.rs","src/balance.rs"], [("sorting of the accounts","src/account.rs, src/report.rs"),("ordered price map","src/history.rs")], [], ["all of the public results"], HOOK)

prop("C26", "The exchange breakdown is right",
 "Exchanging an amount for a cost returns the amount unchanged, as the final cost the cost as given (or the unit cost times the absolute quantity when per unit), as the basis cost the lot price times the quantity when the commodity has a lot price and otherwise the final cost, and as the new price the absolute unit cost at the given moment, or no price when it is zero or both are of one commodity. Exchanging does not change the journal.",
 ["inputs","histories"], "all amounts, costs, signs, per unit or total, with or without lot prices", "Two tests with one example each.",
 ["src/pool.rs"], [("exchange","src/pool.rs")], [], ["CommodityPool::exchange"], HOOK)

prop("C27", "Lot annotations do not change amounts, costs or balances",
 "Adding a lot price {..} and/or a lot date [..], in either order, to a posting changes neither its account, amount and cost nor any balance, total, report or market price; without @ or @@ it gives no cost. The commodity of the lot price is known to the pool afterwards.",
 ["inputs"], "all postings, with all combinations and positions of lot annotations", "One file with one annotated posting.",
 ["src/scanner.rs","src/annotate.rs","src/parser.rs","src/pool.rs"], [("scan_annotations","src/scanner.rs"),("Annotation::parse","src/annotate.rs"),("parse_post","src/parser.rs")], [], ["the whole journal with and without the annotations"])

prop("C28", "An amount means the same wherever it is written",
 "The library's amount parser, the amount of a posting, the total cost and the lot price read the same text as the same quantity and commodity, and for a given quantity and symbol all four notations (symbol first or last, with or without a space) mean the same, also when the number is written without an integer part (`.5`, `-.5`). Text that is not an amount is never read as one.",
 ["inputs"], "all amounts and notations", "Tests call the scanner with a few samples.",
 ["src/scanner.rs","src/parser.rs"], [("scan_amount","src/scanner.rs"),("parse_amount, parse_amount_parts","src/parser.rs")], [], ["parser::parse_amount, Post.amount, Post.cost"])

prop("C29", "Balances add and subtract exactly, commodity by commodity",
 "A balance built by adding and subtracting amounts and other balances, in any order and grouping, holds exactly one entry for every commodity that occurred (also when it is zero, and one for amounts without a commodity), and its quantity is the exact signed sum of the terms of that commodity. Terms of one commodity never affect another.",
 ["inputs","histories"], "all sequences of additions and subtractions of amounts and balances", "Tests add two or three integer amounts.",
 ["src/balance.rs","src/amount.rs"], [("Balance::add, SubAssign<Amount>, AddAssign<Amount>, AddAssign<Balance>","src/balance.rs")], [("Balance.amounts","one amount per commodity","src/balance.rs")], ["Balance.amounts after each operation"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
assert all(len(p["title"]) <= 80 for p in P)
