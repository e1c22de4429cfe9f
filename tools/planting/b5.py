DEFAULT_DEPS='cli'
PRE='''
use std::io::Write;
use std::process::{Command, Output, Stdio};
#[allow(dead_code)]
fn tool() -> Command {
    Command::new(std::env::current_exe().unwrap().parent().unwrap().join("rdftk"))
}
#[allow(dead_code)]
fn run(args: &[&str], envs: &[(&str, &str)], input: &str) -> Output {
    let mut c = tool();
    c.env_remove("NO_COLOR").env_remove("RUST_LOG").args(args).envs(envs.iter().copied());
    let mut k = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
    let mut i = k.stdin.take().unwrap();
    let text = input.to_string();
    let t = std::thread::spawn(move || { let _ = i.write_all(text.as_bytes()); });
    let o = k.wait_with_output().unwrap();
    t.join().unwrap();
    o
}
#[allow(dead_code)]
fn text(o: &Output) -> String { String::from_utf8_lossy(&o.stdout).into() }
'''
M='rdftk_cli/src/main.rs'; C='rdftk_cli/src/commands/mod.rs'; R='rdftk_cli/src/commands/representations.rs'; D='rdftk_cli/src/commands/draw.rs'
NT='''        Representation::NTriples => {
            let reader = nt::NTripleReader::default();
            reader.read(input)?
        }'''
JS='''        Representation::Json => {
            let reader = json::JsonReader::default();
            reader.read(input)?
        }'''
BUGS={
'f01-color-message': dict(property='F01', needs='the option --no-color or the variable NO_COLOR', breaks='a remark is put before the document on the standard output',
 edits=[(M,'info!("Turning off color");','println!("# color is off");')],
 demo=PRE+'''
fn main() {
    let o = run(&["--no-color", "convert", "-f", "n-triples", "-t", "json"], &[], "<u:a> <u:p> \\"t\\" .\\n");
    assert!(o.status.success());
    assert!(text(&o).trim_start().starts_with('{'), "{}", text(&o));
}'''),
'f01-first-block': dict(property='F01', needs='an N-Triples document of more than 64 KiB, in which that much ends between two statements', breaks='the rest of the document is lost without a word',
 edits=[(C,NT,'''        Representation::NTriples => {
            let reader = nt::NTripleReader::default();
            let mut block = std::io::Read::take(input, 1 << 16);
            reader.read(&mut block)?
        }''')],
 demo=PRE+'''
fn main() {
    // every line is 32 bytes long
    let doc: String = (0..4096).map(|i| format!("<u:a> <u:p> \\"{i:014}\\" .\\n")).collect();
    assert_eq!(doc.len(), 4096 * 31);
    let doc = doc.replace(" .\\n", "  .\\n");
    let o = run(&["convert", "-f", "n-triples", "-t", "n-triples"], &[], &doc);
    assert!(o.status.success());
    assert_eq!(text(&o).lines().count(), 4096);
}'''),
'f01-trig-of-set': dict(property='F01', needs='a data set with more than one graph written as TriG', breaks='only one of the graphs is written',
 edits=[(C,'''            let writer = trig::TrigWriter::default();
            writer.write(output, dataset)?;''','''            let writer = trig::TrigWriter::default();
            match dataset.graphs().next() {
                // most hold nothing but a default graph
                Some(graph) if dataset.has_default_graph() => writer.write(output, graph)?,
                _ => writer.write(output, dataset)?,
            }''')],
 demo=PRE+'''
fn main() {
    let o = run(&["convert", "-f", "n-quads", "-t", "trig"], &[], "<u:a> <u:p> \\"in\\" .\\n<u:a> <u:p> \\"out\\" <u:g> .\\n");
    assert!(o.status.success());
    assert!(text(&o).contains("in") && text(&o).contains("out"), "{}", text(&o));
}'''),
'f01-quiet-levels': dict(property='F01', needs='the highest level of logging', breaks='what was asked for is printed with the document',
 edits=[(M,'LogFilter::Tracing => TracingLevelFilter::TRACE,','''LogFilter::Tracing => {
            println!("Tracing is on");
            TracingLevelFilter::TRACE
        }''')],
 demo=PRE+'''
fn main() {
    let o = run(&["--log-filter", "tracing", "convert", "-f", "n-triples", "-t", "n-triples"], &[], "<u:a> <u:p> \\"t\\" .\\n");
    assert!(o.status.success());
    assert_eq!(text(&o).trim(), "<u:a> <u:p> \\"t\\" .");
}'''),
'f02-broken-pipe': dict(property='F02', needs='an output that is closed before it is written to', breaks='the failure to write is reported as a success',
 edits=[(M,'''            Ok(v) => v,
            Err(e) => {''','''            Ok(v) => v,
            // whoever reads the output has seen enough
            Err(e) if format!("{e:?}").contains("BrokenPipe") || e.to_string().contains("roken pipe") => ExitCode::SUCCESS,
            Err(e) => {''')],
 demo=PRE+'''
fn main() {
    let mut k = tool().args(["convert", "-f", "n-triples", "-t", "n-triples"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
    drop(k.stdout.take());
    k.stdin.take().unwrap().write_all(b"<u:a> <u:p> \\"t\\" .\\n").unwrap();
    let o = k.wait_with_output().unwrap();
    assert!(!o.status.success(), "nothing was written, and yet it succeeded");
}'''),
'f02-json-default': dict(property='F02', needs='a JSON document that cannot be read', breaks='an empty document is written, with success',
 edits=[(C,JS,'''        Representation::Json => {
            let reader = json::JsonReader::default();
            reader.read(input).unwrap_or_default()
        }''')],
 demo=PRE+'''
fn main() {
    let o = run(&["convert", "-f", "json", "-t", "n-triples"], &[], "{ \\"u:a\\": ");
    assert!(!o.status.success());
}'''),
'f02-draw-set': dict(property='F02', needs='the draw command on a data set', breaks='nothing is drawn, with success',
 edits=[(D,'''            Ok(ExitCode::FAILURE)''','''            Ok(ExitCode::SUCCESS)''')],
 demo=PRE+'''
fn main() {
    let o = run(&["draw", "-f", "n-quads"], &[], "<u:a> <u:p> \\"t\\" .\\n");
    assert!(!o.status.success());
}'''),
'f02-message-out': dict(property='F02', needs='a command that fails, with its output kept', breaks='the message of the failure is put into the document',
 edits=[(M,'eprintln!("Command failed to execute; error: {e}");','println!("Command failed to execute; error: {e}");')],
 demo=PRE+'''
fn main() {
    let o = run(&["convert", "-f", "n-triples", "-t", "n-triples"], &[], "nothing of the kind\\n");
    assert!(!o.status.success());
    assert!(o.stdout.is_empty(), "{}", text(&o));
    assert!(!o.stderr.is_empty());
}'''),
'f02-nt-full': dict(property='F02', needs='N-Triples written to a device that is full', breaks='the failure to write is reported as a success',
 edits=[(C,'''            let writer = nt::NTripleWriter::default();
            writer.write(output, graph)?;''','''            // the writer emits many small pieces
            let mut buffer = std::io::BufWriter::new(output);
            let writer = nt::NTripleWriter::default();
            writer.write(&mut buffer, graph)?;''')],
 demo=PRE+'''
fn main() {
    let mut k = tool().args(["convert", "-f", "n-triples", "-t", "n-triples"]).stdin(Stdio::piped()).stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap()).stderr(Stdio::piped()).spawn().unwrap();
    k.stdin.take().unwrap().write_all(b"<u:a> <u:p> \\"t\\" .\\n").unwrap();
    let o = k.wait_with_output().unwrap();
    assert!(!o.status.success(), "nothing was written, and yet it succeeded");
}'''),
'f03-text-labels': dict(property='F03', needs='a graph with both a blank node and a literal', breaks='blank nodes are drawn without their labels or others in their place',
 edits=[(D,'''            writer.write(&mut self.output, &graph)?;''','''            // what hangs on nothing is not of interest
            let mut shown = Graph::default();
            for statement in graph.statements() {
                if graph.len() < 3 || !statement.subject().is_blank() || graph.statements().any(|s| s.object().as_blank() == statement.subject().as_blank()) {
                    shown.insert(statement.clone());
                }
            }
            writer.write(&mut self.output, &shown)?;'''),(D,'''use rdftk_core::{error::Error};''','''use rdftk_core::error::Error;
use rdftk_core::model::graph::Graph;''')],
 demo=PRE+'''
fn main() {
    let o = run(&["draw", "-f", "n-triples"], &[], "_:x <u:p> \\"one\\" .\\n<u:a> <u:p> \\"two\\" .\\n<u:a> <u:p> \\"three\\" .\\n");
    assert!(o.status.success());
    assert!(text(&o).contains("one"), "{}", text(&o));
}'''),
'f03-simplified': dict(property='F03', needs='a document that states reification in full', breaks='more is drawn than the document says',
 edits=[(D,'''            writer.write(&mut self.output, &graph)?;''','''            let mut graph = graph;
            graph.dedup();
            writer.write(&mut self.output, &graph)?;''')],
 demo=PRE+'''
fn main() {
    let o = run(&["draw", "-f", "n-triples"], &[], "<u:a> <u:p> \\"one\\" .\\n<u:a> <u:p> \\"two\\" .\\n");
    assert!(o.status.success());
    assert!(text(&o).contains("one"), "{}", text(&o));
}'''),
}
del BUGS['f03-simplified']
