# Shim: channel, lock, counter and threads of src/dumper.rs. Each operation is a step of the worker
# protocol (WSt): its precondition is that the protocol allows the step in the worker's state.
# VxWorld is the worker's view of the run; the extraction adds it as a parameter (vx_w) of the
# functions and an argument of the operations that take such steps.
@typemap Sender<Option<JobItem>> => VxSender
@typemap Receiver<Option<JobItem>> => VxReceiver
@typemap Arc<Mutex<HashMap<String,ObjectInfo>>> => VxShared
@typemap HashMap<String,ObjectInfo> => VxResults
@typemap Arc<AtomicUsize> => VxCounter
@typemap Arc<PathMappings> => VxMappings
@path Ordering => VxOrdering
@path self::* =>
@path Arch::from_str => vx_arch_from_str
@path PathMappings::new => vx_mappings_new
@path Arc::new => vx_arc
@path Arc::clone => vx_arc_clone
@path Mutex::new => vx_mutex
@path HashMap::default => vx_results
@path HashMap::new => vx_results
@path AtomicUsize::new => vx_counter
@path unbounded => vx_channel
@path thread::Builder::new => vx_builder
@method send recv lock fetch_sub drain take remove=>vx_remove insert=>vx_insert join name and
@worldmethod send recv lock fetch_sub drain remove insert join vx_spawn drop
@worldfn send_store_jobs poison_queue consumer several_files several_files_spawn drop
@raw
pub enum VxOrdering { Relaxed, Release, Acquire, AcqRel, SeqCst }
/// the run, as one worker sees it
#[verifier::external_body]
pub struct VxWorld { _p: u8 }
#[verifier::external_body]
pub struct VxSender { _p: u8 }
#[verifier::external_body]
pub struct VxReceiver { _p: u8 }
#[verifier::external_body]
pub struct VxShared { _p: u8 }
#[verifier::external_body]
pub struct VxResults { _p: u8 }
#[verifier::external_body]
pub struct VxCounter { _p: u8 }
