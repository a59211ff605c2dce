SEEDS=[]
F='crates/aether_viz/src/realtime.rs'
SEEDS.append(dict(id='v01-race-position',property='V01',deps={'aether_viz':[]},
 edits=[(F,'''            changed |= self.read_new_bytes(self.file_pos)?;
''','''            changed |= self.read_new_bytes(self.file_pos)?;
            self.file_pos = current_id.len;
''')],
 needs='the writer appending between the moment the tail asks for the length and the moment it reads',
 breaks='the read position is set to the length asked for before reading, so bytes that arrived in between are read twice: rows are doubled or glued together',
 main='''use aether_viz::{CsvRealtimeConfig, CsvRealtimePlotter};
use std::io::Write;
fn main() {
    let dir = std::env::temp_dir().join(format!("tail-{}", std::process::id())); std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("in.csv"); let mut w = std::fs::File::create(&path).unwrap(); w.write_all(b"time,value\n").unwrap();
    let cfg = CsvRealtimeConfig { csv_path: path.clone(), has_header: true, ..CsvRealtimeConfig::default() };
    let mut p = CsvRealtimePlotter::new(cfg); p.initialize().unwrap();
    let n = 200000usize;
    let t = std::thread::spawn(move || { for k in 0..n { w.write_all(format!("{},{}\n", k, 2 * k).as_bytes()).unwrap(); } });
    while !t.is_finished() { p.update_once().unwrap(); }
    t.join().unwrap(); p.update_once().unwrap();
    let xs: Vec<f64> = p.x_values().to_vec(); std::fs::remove_dir_all(&dir).unwrap();
    assert_eq!(xs.len(), n, "rows lost or doubled");
    for (k, x) in xs.iter().enumerate() { assert_eq!(*x, k as f64); }
}
'''))
SEEDS.append(dict(id='v01-stale-partial',property='V01',deps={'aether_viz':[]},
 edits=[(F,'''        self.partial_line.clear();
        self.file_pos = 0;
''','''        self.file_pos = 0;
''')],
 needs='a file replaced while its last line was still unfinished',
 breaks='the unfinished line of the old file is glued to the first line of the new one',
 main='''use aether_viz::{CsvRealtimeConfig, CsvRealtimePlotter};
fn main() {
    let dir = std::env::temp_dir().join(format!("tail-{}", std::process::id())); std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("in.csv"); std::fs::write(&path, "1,2\n3,4").unwrap();
    let cfg = CsvRealtimeConfig { csv_path: path.clone(), has_header: false, x_column: "0".into(), y_columns: vec!["1".into()], ..CsvRealtimeConfig::default() };
    let mut p = CsvRealtimePlotter::new(cfg); p.initialize().unwrap();
    let next = dir.join("next.csv"); std::fs::write(&next, "5,6\n7,8\n9,10\n").unwrap(); std::fs::rename(&next, &path).unwrap();
    p.update_once().unwrap();
    let xs: Vec<f64> = p.x_values().to_vec(); std::fs::remove_dir_all(&dir).unwrap();
    assert_eq!(xs, vec![5.0f64, 7.0, 9.0]);
}
'''))
