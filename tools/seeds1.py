SEEDS = [
dict(id='buffer-advance-restore', prop='C18', file='utils/buffer.rs',
 edits=[('utils/buffer.rs', '        self.start_index = old_start;\n        return None;', '        if self.start_index < self.end_index {\n          self.start_index = old_start;\n        }\n        return None;')],
 needs='an advance by more characters than remain, on a range that then stands at its end',
 breaks='a failed advance leaves the range at its end instead of unchanged',
 demo='''use super::*;
#[test]
fn zz_demo() {
  let mut b = BufferRange::new("s", "ab\\u{e9}");
  assert!(b.advance_n_mut(1).is_some());
  assert!(b.advance_n_mut(3).is_none());
  assert_eq!(b.as_str(), "b\\u{e9}");
}
'''),
dict(id='buffer-crlf-lookahead', prop='C19', file='utils/buffer.rs',
 edits=[('utils/buffer.rs', "if let Some((_, '\\n')) = lookahead_iter.next()", "if let Some((_, '\\n')) | Some((_, '\\r')) = lookahead_iter.next()")],
 needs='a text in which a carriage return directly follows another one',
 breaks='two carriage returns count as one line break',
 demo='''use super::*;
#[test]
fn zz_demo() {
  let b = BufferRange::new("s", "a\\r\\rb");
  assert_eq!(b.end_pos().line(), 2);
  let b = BufferRange::new("s", "a\\r\\nb\\nc");
  assert_eq!(b.end_pos().line(), 2);
}
'''),
dict(id='collect-map-self', prop='C22', file='utils.rs',
 edits=[('utils.rs', '''            new_set.insert(init);
            new_set.extend(val_iter);
            vac.insert(new_set);
            WasChanged::Changed''', '''            new_set.insert(init);
            let changed = WasChanged::from_changed(val_iter.next().is_some());
            new_set.extend(val_iter);
            vac.insert(new_set);
            changed.join(WasChanged::Changed)''')],
 needs='adding two or more values at once under a key that the map does not have yet',
 breaks='the second value is dropped',
 demo='''use super::*;
#[test]
fn zz_demo() {
  let mut m: CollectMap<u8, u8> = CollectMap::new();
  assert_eq!(m.insert_iter(1, vec![3, 4, 5]), WasChanged::Changed);
  assert_eq!(m.get(&1).unwrap().iter().cloned().collect::<Vec<_>>(), vec![3, 4, 5]);
}
'''),
dict(id='name-shared-edit', prop='C27', file='utils.rs',
 edits=[('utils.rs', '#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct Name(std::rc::Rc<String>);', '#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct Name(std::rc::Rc<String>);\n\nfn shared_text(text: &mut std::rc::Rc<String>) -> &mut String {\n  let _weak = std::rc::Rc::downgrade(text);\n  std::rc::Rc::make_mut(text)\n}'),
        ('utils.rs', '    std::rc::Rc::make_mut(&mut self.0)\n', '    let text = shared_text(&mut self.0);\n    if text.len() > 4096 {\n      text.truncate(4096);\n    }\n    text\n')],
 needs='a name longer than 4096 bytes whose mutable accessor is used',
 breaks='taking the mutable accessor of a long name cuts its text off',
 demo='''use super::*;
#[test]
fn zz_demo() {
  let long = "x".repeat(5000);
  let mut n = Name::new(&long);
  let m = n.clone();
  n.make_mut().push('y');
  assert_eq!(m.str(), long);
  assert_eq!(n.str().len(), 5001);
}
'''),
]
