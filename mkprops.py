#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
      why_tests_cant=why,
      anchors=dict(files=files, state=[dict(zip(('name','meaning','where'), s)) for s in state],
                   mechanism=[dict(zip(('name','where'), m)) for m in mech],
                   observe_at=list(observe), hook_needed=None)))

p('C01', 'Parse items are identified by production, dot position and origin',
  'Two parse items are the same item exactly when they concern the same production of the same grammar, the same dot position in it and the same origin position. Equality, ordering and membership in every item set and item map agree with that, so no item is ever lost to, or merged with, a different one while parsing.',
  ['inputs', 'programs'], 'all grammars and all pairs of items that can arise from any token sequence',
  'No test constructs two items of one production at different positions; the clause ranges over all item pairs of all grammars.',
  ['src/state.rs', 'src/parsers/earley/state.rs', 'src/grammar/base.rs', 'src/grammar/base/cmp_wrappers.rs', 'src/parsers/lalr.rs'],
  [('Ord/PartialEq for ProdState', 'src/state.rs'), ('EarleyStateKey derives', 'src/parsers/earley/state.rs'), ('Prod identity by reference', 'src/grammar/base.rs'), ('RefCompare / ParentRef', 'src/grammar/base/cmp_wrappers.rs')],
  ['bongo::parsers::earley::parse', 'bongo::state::ProdStateSet'])

p('C02', 'Every comparison is a total order that agrees with equality',
  'For every comparable type of the library, comparison is a lawful total order: comparing in the other direction gives the reversed answer, partial comparison is always the total one, and two values are equal exactly when they compare as equal. Values that differ in any part that callers can observe as their value (name text, element kind, action, tree and index) are unequal, and text-valued keys compare by their text only, wherever the text lies.',
  ['inputs'], 'all pairs and triples of values of every type with an Ord, PartialOrd, PartialEq or Eq implementation',
  'Tests compare a handful of values through assert_eq; maps and sets rely on the laws for every pair.',
  ['src/grammar/base.rs', 'src/grammar/base/cmp_wrappers.rs', 'src/grammar/base/element_types.rs', 'src/parsers/tree.rs', 'src/utils.rs', 'src/utils/buffer.rs', 'src/utils/type_map.rs', 'src/start_grammar.rs', 'src/grammar/passes/nullable/nullables.rs', 'src/parsers/lalr.rs', 'src/state.rs'],
  [('hand-written and derived Ord/PartialOrd/PartialEq/Hash impls', 'whole crate')],
  ['BTreeMap/BTreeSet keyed by these types'])

p('C03', 'The Earley parser accepts exactly the sentences of the grammar',
  'For every valid grammar and every token sequence, parsing returns a tree exactly when the sequence is a sentence of the grammar, and returns nothing, without panicking, when it is not. Prediction starts every production of the nonterminal after the dot at the current position, scanning advances exactly the items whose next element is that terminal, completion advances exactly the items of the origin set that wait for the completed nonterminal, these are repeated until nothing new arises, and acceptance requires the start production with only the end of stream left.',
  ['inputs', 'programs'], 'all grammars (recursive, nullable, ambiguous, cyclic) and all token sequences',
  'There is no test of the parser at all; the examples run two inputs and check nothing.',
  ['src/parsers/earley.rs', 'src/parsers/earley/state.rs', 'src/state.rs', 'src/start_grammar.rs'],
  [('close_state / parse', 'src/parsers/earley.rs'), ('predict, scan, complete, shift, new_start, get_final, insert', 'src/parsers/earley/state.rs'), ('has_kind / is_eos', 'src/start_grammar.rs')],
  ['bongo::parsers::earley::parse'])

p('C04', 'Parse trees record the tokens, actions and children of each derivation',
  'In the tree a parse returns, each leaf carries the kind and value of the token it stands for, each branch carries the action key of the production that was completed, and a branch\'s children are the nodes of that production\'s elements in order, one per element. When an item is derived in several ways every alternative is kept, and each alternative stored on a node derives exactly the token span that the node stands for.',
  ['inputs', 'programs'], 'all grammars, ambiguous ones included, and all accepted token sequences',
  'No test inspects a parse tree; ambiguity needs particular grammars and inputs of three or more tokens.',
  ['src/parsers/earley/state.rs', 'src/parsers/tree.rs'],
  [('scan / complete / create_next_value / insert', 'src/parsers/earley/state.rs'), ('make_leaf_node, make_branch_node, add_alt, add_all', 'src/parsers/tree.rs')],
  ['Node::alts', 'Branch::nodes', 'Leaf::kind', 'Leaf::value'])

p('C05', 'Production cursors move one element at a time and stay inside',
  'A production cursor starts before the first element, and each advance moves it past exactly the one element it reports as next; it is complete exactly when it has passed the last element, and then reports no next element. Conditional advancing happens exactly when the next element equals the requested one, and looking ahead by n reports the n-th element after the cursor or nothing.',
  ['inputs', 'programs'], 'all productions (empty ones included), cursor positions and look-ahead distances',
  'No test touches production cursors.',
  ['src/state.rs', 'src/grammar/base.rs'],
  [('from_start, next_elem_state, advance_if, is_complete, offset_elem', 'src/state.rs')],
  ['bongo::state::ProdState'])

p('C06', 'Nullable analysis finds exactly the nonterminals deriving the empty string',
  'A nonterminal is reported nullable exactly when it derives the empty sentence: it has a production all of whose elements are nullable nonterminals, computed to the least fixed point. If a nullable nonterminal has more than one such production the analysis reports an ambiguity error and nothing else does; otherwise the recorded null derivation of each nullable nonterminal is that production with the null derivations of its named elements.',
  ['programs'], 'all grammars: any nesting, recursion and order of rules',
  'Tests check four fixed grammars with nesting depth two, none recursive.',
  ['src/grammar/passes/nullable.rs', 'src/grammar/passes/nullable/nullables.rs'],
  [('inner_calculate_nullables / is_prod_nullable', 'src/grammar/passes/nullable/nullables.rs'), ('calculate_nullables', 'src/grammar/passes/nullable/nullables.rs')],
  ['Nullable::is_nullable', 'Nullable::get_nullable_set', 'GrammarNullableInfo::get_nullable_action'])

p('C07', 'First sets contain exactly the terminals that can begin a phrase',
  'The first set of a nonterminal contains exactly the terminals that can begin a sentence derived from it: for each production, the elements up to and including the first that cannot be empty contribute, terminals by themselves and nonterminals with their own first sets, iterated until nothing changes.',
  ['programs'], 'all grammars for which the nullable analysis succeeds',
  'There is no test for the first-set pass.',
  ['src/grammar/passes/firsts.rs', 'src/utils.rs'],
  [('Firsts::run_pass', 'src/grammar/passes/firsts.rs')],
  ['bongo::grammar::passes::firsts::Firsts::get'])

p('C08', 'Follow sets contain exactly the terminals that can come after a phrase',
  'The follow set of a nonterminal contains exactly the terminals that can appear directly after it in a sentential form: what the rest of a production can begin with, looking past elements that can be empty, and, when the rest can be empty, whatever follows the head of that production, iterated until nothing changes. Computing follow sets never panics.',
  ['programs'], 'all grammars for which the nullable analysis succeeds, ε-only nonterminals included',
  'There is no test for the follow-set pass.',
  ['src/grammar/passes/follows.rs', 'src/utils.rs'],
  [('Follows::run_pass', 'src/grammar/passes/follows.rs')],
  ['bongo::grammar::passes::follows::Follows'])

p('C09', 'Each pass runs once per context and failures or cycles are reported',
  'Within one pass context, a pass that succeeds is computed at most once and every later request returns that same shared result, stored separately for each pass. A pass that requests itself, directly or through others, is stopped with a panic instead of recursing, and a pass that fails returns its error to every requester and leaves the context as if it had not been requested.',
  ['histories', 'programs'], 'all sequences of requests, pass dependency graphs and failing passes',
  'Tests request one pass once per context and no pass fails.',
  ['src/grammar/passes/mod.rs'],
  [('PassContext::get_pass with the in-process marker', 'src/grammar/passes/mod.rs')],
  ['PassContext::get_pass'])

p('C10', 'Built grammars contain exactly what was added, in order',
  'A successfully built grammar has the given start symbol, a rule for each head that was added, and in each rule exactly the productions added for that head in the order added, each with its action key and value and with its elements, kinds and identifiers in the order added. The accessors return these without loss, duplication, reordering or substitution.',
  ['programs', 'histories'], 'all sequences of builder calls, including several rules for one head',
  'Tests only build a handful of grammars and hardly inspect what was built.',
  ['src/grammar/base/builder.rs', 'src/grammar/base.rs'],
  [('ProductionBuilder, RuleBuilder, GrammarBuilder, build', 'src/grammar/base/builder.rs'), ('Grammar::new and accessors', 'src/grammar/base.rs')],
  ['Grammar::rules', 'Grammar::prods', 'Rule::prods', 'Prod accessors'])

p('C11', 'A grammar is built exactly when it is well formed',
  'Building a grammar succeeds exactly when the start symbol and every nonterminal used in a production have a rule, every rule has at least one production, and every rule is reachable from the start symbol. Otherwise an error is returned, naming exactly the offending nonterminals under each heading, and building never panics.',
  ['programs'], 'all sets of rules, including missing, empty, unreachable and self-recursive ones',
  'No test builds an ill-formed grammar.',
  ['src/grammar/base.rs', 'src/grammar/base/builder.rs', 'src/utils.rs'],
  [('check_grammar, nonterminals_without_rules, rules_without_prods, unreachable_nonterms', 'src/grammar/base.rs'), ('GrammarErrors::into_result', 'src/grammar/base.rs'), ('breadth_first_search', 'src/utils.rs')],
  ['bongo::grammar::build'])

p('C12', 'Start-wrapping adds one start production and changes nothing else',
  'Wrapping a grammar adds exactly one rule, for the fresh start symbol, with exactly one production: the original start symbol, named, followed by the end-of-stream terminal. Every original rule, production, element, identifier, action key and action value is carried over in order under the injective wrappers, so the end-of-stream terminal occurs nowhere else and never matches a user token.',
  ['programs'], 'all grammars',
  'Wrapping is only exercised on one example grammar, whose result is not inspected.',
  ['src/start_grammar.rs'],
  [('wrap_grammar_with_start, base_elem_to_start_elem, has_kind, is_eos, as_base', 'src/start_grammar.rs')],
  ['bongo::start_grammar::wrap_grammar_with_start', 'StreamTerminal::has_kind'])

p('C13', 'The non-null transform expands every nullable choice and only those',
  'In the transformed grammar, each original production yields one production for every way of keeping or dropping its nullable nonterminals, with the kept elements in their original order and identifiers, except that a choice leaving nothing is omitted, so no production is empty. Terminals and non-nullable nonterminals are always kept; each result records the original action key and value, which nonterminals were dropped (one flag per nonterminal, in order), and the null derivation of each dropped named element.',
  ['programs'], 'all grammars whose nullable analysis succeeds, any number of nullable elements per production',
  'There is no test for the transform.',
  ['src/grammar/transform/nonnull.rs'],
  [('transform_to_nonnull / build_nonnull_prods', 'src/grammar/transform/nonnull.rs')],
  ['bongo::grammar::transform::nonnull::transform_to_nonnull'])

p('C14', 'Tree operations never deadlock on their own lock',
  'No operation on a parse tree waits for the tree\'s lock while the same thread already holds it, and no caller-supplied code that could use the tree (such as the iterator of child nodes handed to branch construction) runs while it is held. So no use of one tree, from one thread or several, can block forever.',
  ['schedules', 'inputs'], 'all interleavings of threads sharing a tree, and all caller-supplied iterators',
  'No test uses the tree; a recursive read lock only deadlocks when another thread waits to write at that moment.',
  ['src/parsers/tree.rs'],
  [('TreeHandle::with / with_mut', 'src/parsers/tree.rs'), ('make_branch_alt, is_same, add_alt, add_all, DotPrinter', 'src/parsers/tree.rs')],
  ['all public methods of TreeHandle, Node, Alternative, Leaf, Branch'])

p('C15', 'Tree handles stay valid and tree contents are shared and append-only',
  'Nodes and alternatives of a tree are never removed, renumbered or changed, so every handle stays valid and keeps denoting the same content for the life of the tree; only the set of alternatives of a node grows. A new node starts with no alternatives and differs from all earlier nodes; equal contents always give the same alternative and different contents different ones, and adding alternatives reports a change exactly when a new one was added.',
  ['histories', 'inputs'], 'all sequences of tree operations',
  'No test uses the tree.',
  ['src/parsers/tree.rs'],
  [('AltSet::add (interning)', 'src/parsers/tree.rs'), ('Inner::make_node / add_node_alt', 'src/parsers/tree.rs'), ('Node::add_alt / add_all / alts', 'src/parsers/tree.rs')],
  ['TreeHandle::make_*', 'Node::alts', 'Node::add_alt', 'Node::add_all', 'Alternative::content', 'Leaf::kind/value', 'Branch::action/nodes'])

p('C16', 'Parts of different trees are never mixed',
  'Every operation that combines parts of trees (adding an alternative to a node, merging nodes, making a branch from child nodes) checks that all of them belong to the same tree before it changes any existing node or alternative, and panics otherwise. Two handles count as the same tree exactly when they come from the same owner.',
  ['inputs', 'histories'], 'all pairs of trees and all handles',
  'No test uses two trees.',
  ['src/parsers/tree.rs'],
  [('assertions on TreeHandle::is_same', 'src/parsers/tree.rs')],
  ['Node::add_alt', 'Node::add_all', 'TreeHandle::make_branch_alt', 'TreeHandle::make_branch_node', 'TreeHandle::is_same'])

p('C17', 'The dot rendering shows exactly the forest reachable from the node',
  'Rendering a node as a dot graph shows that node and every node and alternative reachable from it, each once and nothing else, with an edge from every shown node to each of its alternatives and from every shown branch to each of its children, labelled with its action or its kind and value. Rendering terminates on cyclic forests.',
  ['inputs'], 'all forests, cyclic and shared ones included, and every choice of root',
  'No test renders a tree.',
  ['src/parsers/tree.rs'],
  [('collect_nodes_and_alts', 'src/parsers/tree.rs'), ('GraphWalk and Labeller for DotPrinter', 'src/parsers/tree.rs')],
  ['Node::to_dot'])

p('C18', 'Buffer ranges always delimit whole characters of their own text',
  'A new range covers its whole text; reading a character returns the first character of the range and moves the start past exactly that character, or returns nothing and leaves an empty range unchanged. Advancing by n characters returns exactly those n characters or, when fewer remain, nothing with the range unchanged; the non-mutating forms never change the range they are called on, and removing a suffix, only from the same buffer with the same end, leaves exactly the text before it.',
  ['inputs', 'histories'], 'all texts, multi-byte characters included, and all sequences of range operations',
  'Tests read at most three characters from three fixed strings.',
  ['src/utils/buffer.rs'],
  [('BufferRange::new, read_char(_mut), advance_n(_mut), remove_suffix, as_str', 'src/utils/buffer.rs')],
  ['bongo::utils::buffer::BufferRange'])

p('C19', 'Line and column positions follow the text\'s line breaks',
  'Lines are ended by \\n, \\r\\n or \\r, the pair counting as one break, and the text after the last break, even when empty, is the last line. The position of a byte offset names the line it lies in, offsets inside or right before a break belonging to the line that the break ends, and as column the number of grapheme clusters of that line that begin before it.',
  ['inputs'], 'all texts with any mix of line breaks and all byte offsets',
  'One test checks the first and last position of one text with \\n breaks only.',
  ['src/utils/buffer.rs'],
  [('line_ranges computation in BufferRange::new', 'src/utils/buffer.rs'), ('get_line_str_from_byte_offset, get_text_pos_from_byte_offset', 'src/utils/buffer.rs')],
  ['BufferRange::start_pos', 'BufferRange::end_pos'])

p('C20', 'Token streams yield their tokens in order and are persistent',
  'Stepping a token stream made from a collection returns the tokens of the collection in order, each exactly once, and then nothing, at every position and without panicking. A step never changes the stream it is taken from, so copies of a stream can be advanced independently.',
  ['inputs', 'histories'], 'all token sequences, the empty one included, and all sequences of steps on copies',
  'No test uses token streams.',
  ['src/parsers/mod.rs'],
  [('VecTokenStream::from_into_iter / next', 'src/parsers/mod.rs')],
  ['bongo::parsers::TokenStream::next'])

p('C21', 'A type map returns the value stored under exactly that key',
  'Looking up a key in a type map returns the value most recently stored under a key of the same type that is equal to it, and nothing when there is none; keys of different types never collide and look-ups never panic. Merging moves every entry of the other map in, replacing entries with equal keys, and leaves the other map empty.',
  ['inputs', 'histories'], 'all key types, keys and sequences of insertions, merges and look-ups',
  'No test uses the type map.',
  ['src/utils/type_map.rs'],
  [('cmp_concrete', 'src/utils/type_map.rs'), ('TypeMap::insert/get/get_mut/merge', 'src/utils/type_map.rs')],
  ['bongo::utils::type_map::TypeMap'])

p('C22', 'Change tracking reports a change exactly when something was added',
  'Combining change reports gives "changed" exactly when one of them is, iterating with change tracking visits every item and reports whether any visit changed something, and looping repeats exactly until a round reports no change. Adding to a collecting map or a mergeable map keeps everything already there, adds exactly the given values under the given key, and reports a change exactly when the map holds something it did not hold before.',
  ['inputs', 'histories'], 'all sequences of insertions, keys present or absent, value iterators of any length',
  'No test exercises these helpers directly.',
  ['src/utils.rs', 'src/utils/mergeables.rs'],
  [('WasChanged, change_loop, change_iter', 'src/utils.rs'), ('CollectMap::insert, insert_iter, insert_from_key_set', 'src/utils.rs'), ('MergableMap::insert, insert_cow', 'src/utils/mergeables.rs')],
  ['bongo::utils::CollectMap', 'bongo::utils::WasChanged', 'bongo::utils::mergeables::MergableMap'])

p('C23', 'Closures and searches reach everything reachable exactly once',
  'Breadth-first search returns the initial items and everything reachable from them by the step function, and nothing else, calling the step function once for each; taking the closure of a state set does the same with the closing function. Applying a fixed-point processor processes every initial key and then every key whose value was added or changed, until none is left, and the generic fixed point stops exactly at a value that maps to itself.',
  ['inputs'], 'all step functions over finite graphs, cyclic ones included, and all initial sets',
  'No test calls these; the grammar checks call the search only on small acyclic examples.',
  ['src/utils.rs', 'src/state.rs'],
  [('breadth_first_search, apply_fixed_point, fixed_point', 'src/utils.rs'), ('ProdStateSet::take_closure', 'src/state.rs')],
  ['bongo::utils::breadth_first_search', 'bongo::utils::apply_fixed_point', 'bongo::utils::fixed_point', 'bongo::state::ProdStateSet::take_closure'])

p('C24', 'Grammars are immutable and their parts cannot outlive or be confused',
  'Once built, a grammar cannot be changed through any public operation; rules and productions borrowed from it, and nodes borrowed from a tree, cannot outlive their owner. Comparing rules of two different grammars panics instead of giving an answer, and grammar and tree parts can only be created by the library\'s own validated constructors.',
  ['programs', 'histories'], 'all programs using the public interface',
  'Tests cannot show that a program does not compile, nor range over all client programs.',
  ['src/grammar/base.rs', 'src/grammar/base/cmp_wrappers.rs', 'src/parsers/tree.rs'],
  [('private fields and &-only accessors of Grammar, Rule, Prod', 'src/grammar/base.rs'), ('ParentRef comparison assertion', 'src/grammar/base/cmp_wrappers.rs'), ('lifetimes of Node, Alternative, Leaf, Branch', 'src/parsers/tree.rs')],
  ['the public API'])

p('C25', 'The library is free of hidden state, I/O and unordered iteration',
  'The result of every library operation depends only on its arguments and the values they own: the library uses no unsafe code, no global or thread-local mutable state, no randomness, clock, environment, file, network or process access, writes nothing to standard output or error, starts no threads, and iterates no hash-based collection, whose order varies from run to run. (Productions and trees are ordered by identity, and diagnostics may go to the logger the application installs.)',
  ['configurations', 'schedules', 'histories'], 'all operations in all environments',
  'A test run observes one environment and cannot show the absence of an effect.',
  ['src/lib.rs', 'src/grammar.rs', 'src/parsers/mod.rs', 'src/utils.rs'],
  [('dependencies on ordered collections only', 'whole crate')],
  ['every public function'])

p('C26', 'Printing a grammar shows all of it',
  'The printed form of a grammar shows its start symbol and every rule, in order, with its head and every one of its productions, and each production shows every element in order with its identifier, nonterminals being marked as such and an empty production shown as ε. The debug forms of grammars, rules, productions and elements, and the list, set, tuple and struct formatting helpers, likewise show every entry, in order.',
  ['programs', 'inputs'], 'all grammars and all lists of entries',
  'One test prints a grammar and ignores the output.',
  ['src/grammar/base.rs', 'src/utils/fmt.rs', 'src/utils.rs', 'src/start_grammar.rs'],
  [('ToDoc and Debug impls', 'src/grammar/base.rs'), ('list_fmt, set_fmt, tuple_fmt, struct_fmt', 'src/utils/fmt.rs')],
  ['Grammar::to_pretty', 'Debug output'])

p('C27', 'Names are shared text that changes only where it is changed',
  'A name shows exactly the text it was made from through every accessor and printed form, and cloning it gives an equal name. Changing a name through its mutable accessor changes that name only, never another name that shared its text.',
  ['histories'], 'all texts and all sequences of cloning and changing',
  'No test changes a name.',
  ['src/utils.rs', 'src/grammar/base/element_types.rs', 'src/grammar/base/builder.rs'],
  [('Name::new, str, make_mut', 'src/utils.rs')],
  ['bongo::utils::Name'])

p('C28', 'Parsing and the grammar analyses terminate on every grammar',
  'Parsing any token sequence, every grammar pass, the grammar checks and the transforms finish after finitely many steps for every grammar, including left-recursive, nullable, ambiguous and cyclic ones: every loop either runs through a finite collection fixed before it starts, or repeats only after a round that added something to a collection that never shrinks.',
  ['inputs', 'programs'], 'all grammars and inputs',
  'A finite set of terminating runs says nothing about other grammars; no test parses.',
  ['src/parsers/earley.rs', 'src/utils.rs', 'src/grammar/passes/nullable/nullables.rs', 'src/grammar/passes/firsts.rs', 'src/grammar/passes/follows.rs', 'src/state.rs', 'src/parsers/tree.rs'],
  [('change_loop rounds', 'src/utils.rs'), ('worklists with a visited set', 'src/utils.rs, src/state.rs, src/parsers/tree.rs')],
  ['all public entry points'])

p('C29', 'Parsing time stays polynomial in the input length',
  'For a fixed grammar, the time and memory used to parse grow at most polynomially with the number of tokens, also for ambiguous grammars.',
  ['inputs', 'programs'], 'all grammars and input lengths',
  'Tests measure no resources and parse nothing.',
  ['src/parsers/earley.rs', 'src/parsers/earley/state.rs', 'src/parsers/tree.rs'],
  [('packed forest with shared alternatives', 'src/parsers/tree.rs')],
  ['bongo::parsers::earley::parse'])

p('C30', 'Concurrent use of one tree is equivalent to some sequential use',
  'When several threads build in one tree and read it through its handles, every operation - making a node or an alternative, with or without content, adding an alternative, merging nodes, reading the alternatives of a node or the parts of an alternative - appears to take effect at one moment: the resulting tree and all answers are, up to the numbering of nodes and alternatives, those of some sequential order of the operations. (Rendering a tree visits it step by step and is not such an operation.)',
  ['schedules'], 'all interleavings of tree operations from several threads',
  'No test uses threads.',
  ['src/parsers/tree.rs'],
  [('RwLock around the tree', 'src/parsers/tree.rs')],
  ['TreeHandle', 'Node'])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
