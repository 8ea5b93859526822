PROPS = {f'C{i:02d}': dict(groups={}, level='exploration') for i in range(1, 26)}
PROPS['C01'].update(groups={'rid': None}, level='proof')
PROPS['C03'].update(groups={'names': None}, level='proof')
PROPS['C05'].update(groups={'path': None}, level='proof')
PROPS['C12'].update(groups={'options': None, 'heap': ['TreeOption::*', 'TreeResult::*']}, level='proof')
PROPS['C13'].update(groups={'fields': None}, level='proof')
# The tree: one group, functions per property (a rejected clause with a property tag counts for that property only).
LOOKUP = ['NodeBase::get_node_raw', 'NodeBase::get_absolute_path*', 'NodeBase::get_node', 'NodeBase::get_node_dyn', '<NodeGetter*', 'NodeTreeBase::get_node_rid', 'NodeBase::parent_dyn', 'NodeBase::name', 'NodeBase::is_root', 'NodePath::*', 'PathSeg::*']
SINGLE = ['NodeTreeBase::register_as_singleton', 'NodeTreeBase::unregister_node', 'NodeTreeBase::register_node', 'NodeTreeBase::get_node_identity', 'NodeBase::register_as_singleton', '<NodeGetter*', 'NodeTreeBase::get_node_rid', 'NodeIdentity::does_not_match']
POINTERS = ['Tp::*', 'TpDyn::*', 'NodeTreeBase::get_node', 'NodeTreeBase::get_node_mut', 'NodeTreeBase::get_node_raw', 'NodeTreeBase::get_node_mut_raw', 'NodeBase::this*', 'NodeBase::owner*', 'NodeBase::parent*', 'NodeBase::get_child*', 'NodeBase::get_node', 'NodeBase::get_node_dyn']
LOGGING = ['Log::*', 'Logger::*', 'SystemCall::*', 'NodeTreeBase::post', 'NodeBase::post', 'NodeTreeBase::terminate', 'NodeTreeBase::get_log', 'NodeTreeBase::set_default*', 'Tp::fail', 'TpDyn::fail', 'TreeOption::fail', 'TreeResult::fail']
LISTING = ['NodeBase::top_down', 'NodeBase::top_down_tail', 'NodeTreeBase::get_all_valid_nodes']
PROPS['C04'].update(groups={'heap': LOOKUP}, level='proof')
PROPS['C09'].update(groups={'heap': SINGLE}, level='proof')
PROPS['C11'].update(groups={'heap': POINTERS}, level='proof')
PROPS['C18'].update(groups={'heap': LOGGING}, level='proof')
PROPS['C21'].update(groups={'heap': LISTING}, level='proof')
PROPS['C03'].update(groups={'heap': ['ensure_unique_name', 'NodeBase::set_name', 'NodeBase::set_name_unchecked']}, level='proof')
GROWTH = ['NodeBase::add_child_from_ptr', 'NodeBase::add_child', 'NodeTreeBase::register_node', 'ensure_unique_name']
REMOVAL = ['NodeBase::remove_child', 'NodeBase::free', 'NodeTreeBase::unregister_node', 'NodeBase::top_down', 'NodeBase::top_down_tail']
PROPS['C02'].update(groups={'heap': GROWTH + REMOVAL}, level='proof')
PROPS['C06'].update(groups={'heap': REMOVAL}, level='proof')
FRAMES = ['NodeTreeBase::process', 'NodeTreeBase::process_tail', 'NodeTreeBase::get_nodes_mut', 'TreeStatus::*', 'NodeTreeBase::queue_termination', 'NodeTreeBase::terminate']
PROPS['C07'].update(groups={'heap': FRAMES}, level='proof')
PROPS['C08'].update(groups={'heap': FRAMES}, level='proof')
PROPS['C17'].update(groups={'heap': ['NodeTreeBase::initialize', 'NodeBase::add_child', 'NodeBase::add_child_from_ptr', 'NodeBase::mark_as_final', 'NodeBase::mark_as_loaded', 'NodeBase::has_just_loaded']}, level='proof')
BUILD = ['NodeTreeBase::new', 'initialize_base', 'TreeSimple::new', '<NodeTree for TreeSimple>*', '<Deref for TreeSimple>*', '<DerefMut for TreeSimple>*']
PROPS['C02']['groups']['heap'] += ['NodeTreeBase::initialize'] + BUILD
PROPS['C17']['groups']['heap'] += BUILD
PROPS['C08']['groups']['heap'] = FRAMES + ['NodeTreeBase::new']
PROPS['C18']['groups']['heap'] = LOGGING + ['NodeTreeBase::new']
SCENES = ['NodeScene::new', 'NodeScene::new_dyn', 'NodeScene::append', 'NodeScene::append_as_owner', 'NodeScene::children', 'NodeScene::get_node', '<Instanceable for NodeScene>*', '<Instanceable for N>*', '<Clone for NodeScene>*', 'NodeBase::new', '<Clone for NodeBase>*']
PROPS['C16'].update(groups={'heap': SCENES}, level='proof')
PROPS['C19'].update(groups={'heap': ['NodeScene::internal_structural_hash', 'NodeScene::structural_hash', '<Hash for NodeScene>*']}, level='proof')
PROPS['C20'].update(groups={'heap': ['NodeBase::save_as_branch', 'NodeBase::save_as_branch_tail', 'NodeScene::new_dyn', 'NodeScene::append', 'NodeScene::append_as_owner', 'NodeBase::is_owner', 'NodeBase::new', '<Clone for NodeBase>*']}, level='proof')
PROPS['C17']['groups']['heap'] += ['<Instanceable for NodeScene>*']
PROPS['C10'].update(groups={'signals': None}, level='proof')
PROPS['C14'].update(groups={'export': None}, level='proof')
PROPS['C15'].update(groups={'registry': None, 'heap': ['NodeScene::save_to_str', 'NodeScene::load_from_str', 'NodeScene::update_internal', '<Instanceable for NodeScene>*', '<Clone for NodeScene>*', 'NodeScene::new_dyn', 'NodeScene::append', 'NodeScene::append_as_owner', 'save_and_load', 'lemma_round', 'lemma_rebuilt']}, level='proof')
QUERIES = ['NodeBase::children', 'NodeBase::num_children', 'NodeBase::childless', 'NodeBase::in_tree', 'NodeBase::is_stray', 'NodeBase::is_root', 'NodeBase::is_owner', 'NodeBase::rid', 'NodeBase::name', 'NodeBase::depth', 'NodeBase::tree', 'NodeBase::tree_mut',
    'NodeBase::get_child*', 'NodeBase::parent*', 'NodeBase::owner*', 'NodeBase::this*', 'NodeBase::get_node*', 'NodeBase::top_down*', 'NodeBase::free', 'NodeBase::remove_child', 'NodeBase::post', 'NodeBase::add_child_from_ptr', 'NodeBase::add_child',
    'NodeBase::save_as_branch', 'NodeBase::register_as_singleton', 'NodeBase::get_absolute_path*', 'NodeTreeBase::get_nodes*', 'NodeTreeBase::get_all_valid_nodes*', 'NodeTreeBase::get_node*', 'NodeTreeBase::root*']
PROPS['C22'].update(groups={'heap': QUERIES}, level='proof')
PROPS['C23'].update(groups={'heap': ['draw_tree*', 'Logger::new', 'Logger::post*', 'NodeTreeBase::post', 'NodeBase::post', 'NodeTreeBase::process', 'Log::*', 'SystemCall::*', 'Logger::set_default*', 'NodeTreeBase::set_default*']}, level='proof')
KINDS = ['All', 'Bare', 'Preset', 'Private', 'Ear']
import decl
MADE = [f'{k}::new' for k in [*KINDS, *decl.CLS]]
PROPS['C24'].update(groups={'registry': None, 'classes': MADE + ['Exportable::*', 'Node::*', '<Clone for *', '<Deref*', '<NodeAbstract for *', '<Registered for *', '<Node for *', '<NodeTree for Grove>*', '<Exportable for *', '<Voidable for *', 'Field::*', 'UniqueField::*', 'ExportableField::*', 'DefaultField::*']}, level='proof')
PROPS['C25'].update(groups={'classes': MADE + ['one', 'named', 'row', 'nest', *decl.SCENES, '<AsElement*', '<DerefMut for *', 'ExportableField::*', 'DefaultField::*']}, level='proof')
NOTES = dict(
C24='Proved for all field values, of a fixed list of 21 declarations (classes/, every documented kind of member, up to 24 members, drawn names, as the compiler expands it): new, clone, save, load, Deref, the base accessors, the mode hook; the derived tree type. Bounded over declarations: the macro itself (a program over token streams) is out of reach. Dispatch of the other hooks, trait extension, constants, visibility and registration are bounded.',
C25='Proved for all values and link scenes, of 14 fixed scene! expressions (up to 41 nodes, 13 levels, classes with up to 24 members) (as the compiler expands them): classes, names, settings, order, nesting, linked scenes. Bounded over expressions: the macro itself is out of reach. connect! is bounded: its effect is a call from a stored closure.',

C01='Proved for all item types and call sequences: RIDHolder::{new,from_vec,push,retrieve,modify,take,len,is_empty,iter,iter_enumerated} against a map view and a representation invariant. The mutable iterators are bounded. Assumes fewer than 2^64 ids are ever issued.',
C02='Proved: a tree built by NodeTreeBase::new, initialize_base and TreeSimple::new satisfies the tree invariant; one-step preservation of it by initialize, add_child(_from_ptr), remove_child, free, process and register/unregister. Hooks of removed or added nodes are taken not to restructure the tree during these calls; hooks run in a frame are taken to preserve the invariant, which is what the contracts here give for the operations they may call.',
C03='Proved for every string: ensure_unique_name, set_name and every addition path; the name clause of the tree invariant.',
C04='Proved for every tree, node and path: get_node_raw walks the path, get_absolute_path and the round trip (for segment-safe names).',
C05='Proved for every string: parse, print and the round trip.',
C06='Proved under the stated quantifier (hooks that do not restructure): exactly the branch goes, everything else is unchanged, one termination call per node with the reason, singleton names released.',
C07='Proved: exact call sequence of a frame for hooks that do not restructure the tree; for arbitrary hooks: no failure on nodes that disappear, order and status. Restructuring hooks are bounded for exactness. Termination of process_tail under restructuring hooks is not proved.',
C08='Proved: status transitions and call sequences of frames in every status, queueing, terminating.',
C09='Proved: register/unregister, lookup by name, and the singleton clause of the tree invariant.',
C10='Proved: emit, connect, connect_once, disconnect, clone against a map of connections. Handlers are taken not to panic nor to touch the signal they are called from (its mutex is held), closures are named by the address of their box.',
C11='Proved for Tp and TpDyn against the registry. The type tests themselves (Any downcast, trait extension lookup) are trusted.',
C12='Proved: every combinator against the identically named standard operation, including closure arguments; the error exits post to the kept owner and never return.',
C13='Proved for every contained type and operator: value histories of the four wrappers and 80 compound assignments.',
C14='Proved for every type with an encoder (scalars, options, lists, arrays, sets, maps, tuples, pointers, 52 glam types, ExportableField): decode(encode(x)) is x and decode gives nothing on anything else, for one decoding function per type. toml_edit values, glam types and their conversions, printing and parsing of addresses, and the standard collections (with lawful keys) are assumed; payloads of NaNs are ignored; Durations whose seconds fit f64; a Mutex that is not poisoned. The text of a value is C15.',
C15='Proved for every scene: save_to_str writes one row per node in pre-order, load_from_str builds the tree that the rows describe or reports an error, and saving then loading gives the same scene (names, classes, exported state, ownership, child order). Assumed: toml_edit (entries keep their order; a printed document parses back to itself; comments do not matter), that a class restores what it wrote (macro code over the encoders of C14), class registration, raw pointers into a scene as child positions. No class exports a field called metadata (known finding). File reading and writing is bounded.',
C16='Proved: iterate visits exactly the scene in order; append, append_as_owner, clone, new.',
C17='Proved: call sequences of initialize, add_child and add_child_from_ptr for hooks that do not restructure.',
C18='Proved: post for every verbosity, level and text; panics end the tree. The text of a line is proved, the clock is arbitrary. Proved too: a failing pointer, option or result operation posts its text as a panic of its owner before it panics.',
C19='Proved: the sequence fed to the hasher is injective in types, ownership and shape and independent of names and fields.',
C20='Proved: save_as_branch mirrors the branch and leaves the tree alone. Cloning of field values (user code / macro) is bounded.',
C21='Proved: top_down equals the level order of the branch.',
C23='Proved for every tree, node and set of statuses: the text of the report, its place in the log, who remembers what, and that all statuses are clear when the first hook of a frame is called. The status cell of a node (a mutex) is trusted to hold what was stored; the clock is arbitrary; the copy printed to the terminal and colours of single lines are not covered.',
C22='Proved: every query against the links of the tree invariant; a panic exit is a call that must satisfy its condition and does not return, so that an operation which returns has a node inside a tree. Hash sets of ids are taken to count distinct ids.',
)
for p, n in NOTES.items(): PROPS[p]['note'] = n
