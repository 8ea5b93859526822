#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for ids, titles, statements)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook,
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state])))
S='node_tree_core/src/structs/'; T='node_tree_core/src/traits/'
p('C01','The id registry behaves like a map that never reissues a live id',
  "Inserting an item into an id registry returns an id that no live item has, and lookup, modification, removal and size afterwards agree with a plain map from ids to items: an operation on one id never changes another entry. A registry built from a list stores each item under its position, and later insertions never overwrite those items.",
  ['histories','inputs'],'every sequence of insert/lookup/modify/remove calls, every starting list, every item type',
  'tests reach the registry only through small fixed trees; id reuse after removal and list construction are never exercised over all histories',
  [S+'rid.rs'],[('RIDHolder::push/take/retrieve/modify/len/from_vec',S+'rid.rs')],['RIDHolder public methods'],None,
  [('vacant','ids free for reuse',S+'rid.rs'),('highest','first id never issued',S+'rid.rs')])
p('C02','Tree links stay consistent under every sequence of structural operations',
  "After any sequence of building a tree, adding nodes or scenes, removing children, freeing nodes and renaming, every node known to the tree other than the root has a live parent that lists it exactly once among its children, and its depth is its parent's depth plus one. Every child a node lists is known to the tree under its own id, and a node's owner is itself if it was added as a scene owner and otherwise its parent's owner.",
  ['histories','inputs'],'all finite histories of structural operations, all tree shapes',
  'tests build four or five fixed trees and never inspect the links after a mixed history',
  [S+'node_base.rs',S+'node_tree_base.rs'],[('add_child_from_ptr / remove_child / free',S+'node_base.rs'),('initialize / register_node / unregister_node',S+'node_tree_base.rs')],
  ['parent(), children(), depth(), owner(), rid() of every node','tree lookup by id'],None,
  [('children/parent/owner/depth','links of one node',S+'node_base.rs'),('nodes','id to node',S+'node_tree_base.rs')])
p('C03','Sibling names stay unique and a free name is kept',
  "After a node is added under a parent or renamed, no sibling has the same name. A requested name that no sibling uses is used unchanged; a taken name is replaced by the same stem (the name without its trailing digits) followed by a number. This holds for every string, including empty, non-ASCII and all-digit names.",
  ['inputs','histories'],'all names, all sets of sibling names',
  'the tests only ever use a few ASCII names; uniqueness is a statement over all pairs of name and sibling list',
  ['node_tree_core/src/utils/functions.rs',S+'node_base.rs'],[('ensure_unique_name','node_tree_core/src/utils/functions.rs'),('set_name / add_child_from_ptr',S+'node_base.rs')],
  ['name() of every child after add_child / set_name','ensure_unique_name result'])
p('C04','Path lookup walks exactly the path',
  "Looking up a relative path from a node takes one step per segment: '.' stays, '..' goes to the parent, and a name goes to the child with that name; the lookup fails exactly when some step has nowhere to go. An absolute path must start with the root's name and continues from the root. Looking up a node's own absolute path from any node of the tree yields that node (for node names usable as path segments).",
  ['inputs','histories'],'all paths, all trees, all starting nodes',
  'one test resolves seven fixed paths in one five-node tree',
  [S+'node_path.rs',S+'node_base.rs',S+'node_tree_base.rs'],[('get_node_raw / get_absolute_path',S+'node_base.rs'),('NodeGetter for NodePath',S+'node_path.rs')],
  ['get_node / get_node_dyn / get_node_raw / get_node_rid results'])
p('C05','Path text parses to its segments and survives printing',
  "Parsing a path yields its non-empty '/'-separated segments in order, with '.' and '..' recognised only as whole segments, and the path is absolute exactly when the text begins with '/'. Printing any path whose names contain no '/' and parsing the result yields an equal path, including empty and absolute paths.",
  ['inputs'],'all strings and all segment lists',
  'the tests parse seven literals and never print a path',
  [S+'node_path.rs'],[('PathSeg::parse, NodePath::from_str / to_string / add_node / pop_front / scan',S+'node_path.rs')],
  ['NodePath equality, is_absolute, pop_front_as_string, to_string'])
p('C06','Removing or freeing a node removes exactly its branch',
  "Removing a child by name or freeing a node makes that node and all its descendants, and no other node, unknown to the tree: their ids no longer resolve, their singleton names are released, and the parent no longer lists the branch. Each removed node receives exactly one termination call with the matching reason, and the surviving nodes keep their links, names and identities. Removing a name that no child has changes nothing and reports failure, and freeing the root ends the tree.",
  ['histories','inputs'],'all trees, all choices of the node removed, hooks that do not themselves restructure the tree',
  'tests only free leaves of one fixed tree and never check what was removed or which node was notified',
  [S+'node_base.rs',S+'node_tree_base.rs'],[('remove_child / free / top_down',S+'node_base.rs'),('unregister_node',S+'node_tree_base.rs')],
  ['terminal() calls','id lookup','children of the parent','singleton lookup'])
p('C07','Each frame processes exactly the enabled nodes, parents first',
  "In a frame of a running tree every node whose effective process mode is enabled gets exactly one process call with the frame's delta and no other node gets one; a node is handled after its parent and siblings in child order. The effective mode is the node's own mode or, if it inherits, its parent's effective mode, pausable at the root; running enables always and pausable nodes, paused enables always and inverse nodes. Nodes that disappear during the frame are skipped without failure.",
  ['histories','inputs','configurations'],'all trees, all assignments of process modes, running and paused, hooks that free nodes mid-frame',
  'tests use only inheriting nodes in a running tree and do not count calls',
  [S+'node_tree_base.rs'],[('process / process_tail',S+'node_tree_base.rs')],['process() calls received by nodes'],'setting the paused state has no public API; a cfg-guarded setter')
p('C08','The tree life cycle moves only forward and terminates every node once',
  "Queueing termination lets the current frame finish, the next frame gives every node in the tree exactly one termination call with the tree-exit reason and no process call, and after that frame the tree is terminated. A terminated tree stays terminated and calls no hook; queueing again changes nothing, and immediate termination ends the tree without termination calls.",
  ['histories'],'all interleavings of frames, queue and terminate requests, all trees',
  'tests run to termination once and never observe intermediate states or notifications',
  [S+'node_tree_base.rs'],[('process / process_tail / queue_termination / terminate',S+'node_tree_base.rs')],['status returned by process()','terminal() calls'],None,
  [('status','life-cycle state',S+'node_tree_base.rs')])
p('C09','A singleton name denotes at most one live node',
  "Registering a node as a singleton succeeds exactly when no live node holds that name, and from then on lookup by that name yields that node until it is removed or registered under another name. Lookup by a name that no live node holds yields nothing, and a failed registration changes nothing. Registering an unknown id reports that the node does not exist.",
  ['histories'],'all sequences of register, re-register, remove and lookup',
  'the only singleton test registers one name once and never looks it up',
  [S+'node_tree_base.rs'],[('register_as_singleton / unregister_node / NodeGetter for String',S+'node_tree_base.rs')],
  ['register_as_singleton result','get_node_rid by name','get_node_identity'],None,
  [('singletons','name to id',S+'node_tree_base.rs'),('identity','id to unique name',S+'node_tree_base.rs')])
p('C10','Signals call every connected handler exactly once',
  "Emitting a signal calls every handler connected to it at that moment exactly once with the emitted value and calls nothing else; a one-shot handler is called by one emission and is then gone. Disconnecting returns whether the connection existed, removes only that connection, and its handler is never called again. A cloned signal has no connections and does not affect the original.",
  ['histories','inputs'],'all sequences of connect, connect once, emit, disconnect and clone (from outside handlers)',
  'one test connects two handlers and never disconnects or uses one-shot connections',
  [S+'signals.rs'],[('connect / connect_once / emit / disconnect / clone',S+'signals.rs')],['handler calls','disconnect result'],None,
  [('hooks','connection id to handler and mode',S+'signals.rs')])
p('C11','Tree pointers resolve exactly to the live node of the right type',
  "Creating or dereferencing a tree pointer to an id succeeds exactly when the tree knows that id and, for typed pointers, the node has that type; it then yields that node. Otherwise the fallible operations report a null pointer or a wrong type accordingly, the others panic, and validity and type queries (also for traits) always agree with what dereferencing or casting would do, also after the node is removed.",
  ['histories','inputs'],'all trees, all ids, all target types, before and after removals',
  'tests only dereference valid pointers',
  [S+'tree_pointer.rs',S+'node_base.rs'],[('Tp / TpDyn new, get, try_get, is_valid, is_null, to, is, cast',S+'tree_pointer.rs'),('get_child / parent / owner / get_node / this',S+'node_base.rs')],
  ['Tp / TpDyn public methods','error values'])
p('C12','Tree options and results compute what the standard ones compute',
  "Every query, conversion and combinator of the tree option and tree result types yields the same value, and calls its closures on the same arguments, as the identically named operation of the standard option and result types. The outcome keeps the tree and owner it reports errors to.",
  ['inputs'],'all contained values, all closures, both variants',
  'tests only call unwrap and to_option on success values',
  [S+'tree_option.rs',S+'tree_result.rs'],[('TreeOption / TreeResult methods',S+'tree_option.rs')],['return values of every method'])
p('C13','Field wrappers hold the last value written and void only as documented',
  "A field wrapper yields the last value written until that value is taken; taking returns it and leaves a nullable wrapper void, and void wrappers report themselves void. Cloning keeps the value except that unique fields clone to void, and voiding yields void or the default value by kind. Every compound assignment on a wrapper applies exactly that operator to the contained value.",
  ['inputs','histories'],'all value types, all operators, all sequences of write/take/clone',
  'tests read a few integer fields and use += once',
  [S+'node_field.rs',T+'element.rs'],[('Field / ExportableField / UniqueField / DefaultField',S+'node_field.rs')],['wrapper methods, operators, Clone, Deref'])
p('C14','Exported values decode to what was encoded',
  "For every supported exportable type and every value of it (file paths being valid Unicode, node paths having no '/' inside a name), decoding the encoded value yields the original value. Decoding a value of another kind, or an integer outside the range of the target integer type, yields nothing, and decoding never panics.",
  ['inputs'],'all values of every supported type, all stored values',
  'tests round-trip six fields with one value each',
  [T+'exportable.rs',T+'glam_exportables.rs'],[('Exportable::to_value / from_value',T+'exportable.rs')],['to_value / from_value results'])
p('C15','A saved scene loads back as the same scene',
  "Saving any scene to text (a string or a .scn file) and loading it again yields a scene with the same shape, child order, node names, node types, ownership flags and exported field values. Every node is saved under its own key. Loading malformed text (no valid TOML, missing or ill-typed metadata or fields, an unknown node type or a parent that was not declared before), or a file that cannot be read or is not named .scn, reports an error instead of panicking.",
  ['inputs'],'all scenes: every shape, naming and ownership',
  'one three-node scene is saved and loaded',
  [S+'node_scene.rs','node_tree_core/src/services/node_registry.rs'],[('save_to_str / load_from_str / save / load / update_internal',S+'node_scene.rs'),('register_deserializer / deserialize','node_tree_core/src/services/node_registry.rs')],
  ['save_to_str, load_from_str, structural_hash, instantiated tree'])
p('C16','A scene instantiates and clones node for node',
  "Instancing a scene visits every node of it exactly once, each with its own parent in the scene, parents before children and siblings in order, with the ownership flag it was appended with. Appending as owner or as plain child sets only that flag on the appended root, and cloning a scene yields an independent scene with the same shape, names, fields and flags.",
  ['inputs'],'all scenes and all append sequences',
  'tests instance a few literal scenes and never check the visit',
  [S+'node_scene.rs',T+'instanceable.rs',T+'node.rs'],[('Instanceable::iterate / append / append_as_owner / Clone',S+'node_scene.rs')],['visits reported by iterate','tree built from a scene'])
p('C17','Every node is readied exactly once, in order, loaded nodes announced first',
  "When a tree is built from a scene every node gets exactly one ready call after the whole scene is attached, and after all of its descendants; a node added later gets exactly one ready call when it is added. A node that came from saved text gets exactly one loaded call immediately before its ready call and does not count as just loaded afterwards; no other node gets one.",
  ['histories','inputs'],'all scenes, from code or from text, used to build a tree or added later',
  'tests do not record hook order or counts',
  [S+'node_tree_base.rs',S+'node_base.rs',S+'node_scene.rs'],[('initialize',S+'node_tree_base.rs'),('add_child_from_ptr',S+'node_base.rs'),('from_disk marking',S+'node_scene.rs')],['ready() and loaded() calls'])
p('C18','The logger records exactly what its verbosity admits and panics end the tree',
  "A posted message is appended to the log exactly once, after all earlier ones, with its level, its text and the posting node's name (its singleton name, or else its path), if and only if the verbosity admits its level; admitted levels are all, all but debug, warnings and panics, or only panics. Posting a panic terminates the tree under every verbosity and posting any other level never does.",
  ['inputs','histories'],'all verbosities, levels, texts and message sequences',
  'one test counts log lines at full verbosity',
  [S+'logger.rs',S+'node_tree_base.rs'],[('Logger::post / post_manual, Log::is_*',S+'logger.rs'),('NodeTreeBase::post',S+'node_tree_base.rs')],['get_log / to_str','tree status after post'])
p('C19','The structural hash depends exactly on types, ownership and shape',
  "Two scenes with the same shape, child order, node types and ownership flags have the same structural hash whatever their names and field values, and scenes that differ in any of these feed different data to the hasher. Hashing does not change the scene.",
  ['inputs'],'all pairs of scenes, all hashers',
  'tests compare two pairs of equal scenes and no unequal ones',
  [S+'node_scene.rs'],[('internal_structural_hash / structural_hash / Hash',S+'node_scene.rs')],['structural_hash, Hash::hash'])
p('C20','Saving a live branch mirrors it and leaves it alone',
  "Saving a node as a branch yields a scene with one node per node of the branch, in the same shape and child order, with the same names, types and cloned field values, whose ownership flags match the live nodes (the branch root counts as owner). The live tree is unchanged.",
  ['inputs','histories'],'all live trees and all nodes in them',
  'one four-node branch is hashed',
  [S+'node_base.rs',S+'node_scene.rs'],[('save_as_branch / save_as_branch_tail',S+'node_base.rs')],['scene returned by save_as_branch','live tree afterwards'])
p('C21','Top-down listing enumerates a branch once, level by level',
  "Listing the nodes below a node yields every descendant exactly once and nothing else, level by level, with siblings in child order, and includes the node itself first exactly when asked to.",
  ['inputs'],'all trees and all nodes in them',
  'never tested directly',
  [S+'node_base.rs'],[('top_down / top_down_tail',S+'node_base.rs')],['top_down result'])
p('C22','Queries about nodes agree with the links of the tree',
  "For every node of a tree, the child list, the child count, a child by position, the parent, the owner and the root, owner and in-tree queries give exactly the links that growing and removing established. Listing nodes by ids yields the known ones in the given order (and a mutable listing refuses repeated ids by panicking). A node outside every tree says so, and every operation on it that needs a tree panics instead of returning.",
  ['inputs','histories'],'all trees, all nodes in or outside them, all id lists, after every history',
  'tests read a few children of valid nodes and never query a node outside a tree',
  [S+'node_base.rs',S+'node_tree_base.rs'],[('children / num_children / childless / get_child* / parent* / owner* / in_tree / is_stray / is_root / is_owner','node_tree_core/src/structs/node_base.rs'),('get_node* / get_nodes* / get_all_valid_nodes* / root*',S+'node_tree_base.rs')],
  ['return values of the queries','panics on nodes outside a tree'])
p('C23','A panic report draws the branch and the warnings and panics of the frame',
  "A node remembers the last warning or panic it posted until the next frame starts, and at the start of a frame every node forgets it. Posting a panic appends to the log, after its line, a report: the tree below the ancestor six levels up (or the root), one line per node in pre-order with siblings in child order and joined to their parent, cut off thirteen levels below that ancestor, followed by the remembered warnings and panics of the drawn nodes, the time and the crash header and footer.",
  ['histories','inputs'],'all trees, all nodes in them, all sequences of posts and frames',
  'no test reads a report',
  ['node_tree_core/src/utils/functions.rs',S+'logger.rs',S+'node_base.rs',S+'node_tree_base.rs'],[('draw_tree','node_tree_core/src/utils/functions.rs'),('Logger::post',S+'logger.rs'),('NodeBase::post / set_status',S+'node_base.rs'),('process (status reset)',S+'node_tree_base.rs')],
  ['get_log after a panic','NodeBase::status'])
p('C24','A declared class is built, copied, saved and dispatched as declared',
  "For every class! and #[derive(Tree)] declaration, the constructor makes a node named like the class out of the given arguments in order and gives every other field the written initial value, or the Default of its type, whatever the field's kind; a clone copies each field by its kind; and only exported fields are saved, each under its own name. Loading gives each exported field the value stored under its name, ignores entries of other names, leaves the other fields void or default, and fails when an exported one is missing or of a wrong type. Each hook of the class reaches exactly its written body and an unwritten one does nothing (the process mode is then Inherit), and the class dereferences to its own base.",
  ['inputs'],'all declarations, all field values, all saved values',
  'tests declare a handful of classes and read a few of their fields',
  ['node_tree_derive/src/lib.rs','node_tree_derive/src/generator.rs','node_tree_derive/src/parser.rs',S+'node_field.rs'],
  [('class / tree_derive','node_tree_derive/src/lib.rs'),('field and hook generators','node_tree_derive/src/generator.rs'),('class parser','node_tree_derive/src/parser.rs'),('field wrappers',S+'node_field.rs')],
  ['X::new','Clone','NodeSys::load_from_owned / to_field_map','hooks','Deref'])
p('C25','scene! builds the tree that is written and connect! ties the listener',
  "A scene! expression evaluates to the scene it spells: each node constructed by its class with the written arguments in order, under its written name or the name of its class, with the written settings applied and the written children in written order at every depth. A connect! expression ties the signal to the written function of the listener: `->` calls it at every emission until it is disconnected or the listener is gone, `~>` calls it at the next emission only.",
  ['inputs','histories'],'all scene! and connect! expressions, all values in them',
  'tests spell out two scenes and two connections',
  ['node_tree_derive/src/lib.rs','node_tree_derive/src/generator.rs','node_tree_derive/src/parser.rs',S+'node_scene.rs',S+'signal.rs'],
  [('scene / connect','node_tree_derive/src/lib.rs'),('scene parser','node_tree_derive/src/parser.rs'),('NodeScene::append',S+'node_scene.rs')],
  ['the NodeScene of scene!','calls made by emit after connect!'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
