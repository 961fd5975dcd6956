use crate::world::{Ctx, Verdict};

pub mod algos;
pub mod concurrency;
pub mod interrupts;
pub mod layouts;
pub mod loading;
pub mod saving;
pub mod selections;
pub mod sequences;
pub mod sessions;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&Ctx) -> Verdict,
    pub quick: u64,
    pub thorough: u64,
    /// as many runs more in the build without optimisation, for each `quick` runs
    pub plain: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

const LOAD_REAL: &str = "all of rust_3d::io's loaders and incremental readers, line splitting and number parsing, the real containers (PointCloud2D/3D/3Df32, Vec, VecDeque, Mesh3D over four index / vertex stores), std's BufReader";
const LOAD_STUB: &str = "the byte source (simulated stream implementing Read + BufRead + Seek), std's hash seed (getrandom)";

const SAVE_REAL: &str = "all savers (xy, xyz, STL ASCII, PLY ASCII / binary, with and without colours), all loaders used to read the documents back, real containers, std's BufWriter / BufReader";
const SAVE_STUB: &str = "the byte sink and byte source (simulated Write / Read + BufRead + Seek), the storage between them (bytes accepted, cut at a drawn offset by a crash), std's hash seed (getrandom)";

const ALGO_REAL: &str = "heal_mesh, cluster_vertices, subdivide::linear, unify_faces, Cluster, pack_dupes_indexed, load_stl_mesh_unique, hashing and equality of the point types, real mesh and index containers, std's HashMap / HashSet / RandomState";
const ALGO_STUB: &str = "the operating system's randomness behind RandomState (getrandom), the byte source of the STL loads";

const SEL_REAL: &str = "OcTree, View, all filters and filter combinators, IsViewBuildable of Vec, VecDeque, LinkedList, PointCloud2D and PointCloud3D, std's HashSet / RandomState";

const SES_REAL: &str = "Mesh3D over five combinations of vertex and index containers, SearchableMesh / HalfEdge, PointCloud2D, PointCloud3D, PointCloud3Df32, Vec, VecDeque and LinkedList implementations, DynamicPrecisionIndexVec, U32IndexVec, Polygon2D / 3D, all loaders, the PLY, xyz and xy savers";

const INT_REAL: &str = "filters and filter combinators over views, IsViewBuildable implementations, KdTree, OcTree, AABBTree2D / 3D, Cluster, collider containers, FilterOutlier3D, point clouds, PointCloud3Df32, Mesh3D, all loaders, all savers, std's BufReader / BufWriter";
const INT_STUB: &str = "the user's code (predicates, point and element types, callbacks, search structure, target containers wrapping the real ones), byte source and sink, std's hash seed";

const CON_REAL: &str = "all loaders and incremental readers, all savers, KdTree, OcTree, AABBTree3D, Cluster, FilterOutlier3D, filters over views, mesh algorithms, point clouds and meshes, real OS threads";
const CON_STUB: &str = "the scheduler (one thread proceeds at a time, switches at calls into stream, sink, container and user code), byte sources and sinks, user point types, std's hash seed";

pub fn all() -> Vec<Prop> {
    vec![
        Prop { id: "C01", run: loading::c01, quick: 2_400_000, thorough: 60_000_000, plain: 0, rule: "each run generates a document of one of 14 formats with known content (or damages one), and loads it through one of 17 entry points into one of 9 containers under a drawn delivery plan; non-trivial: at least one read was short or interrupted", real: LOAD_REAL, stub: LOAD_STUB },
        Prop { id: "C02", run: loading::c02, quick: 2_400_000, thorough: 60_000_000, plain: 0, rule: "each run loads a generated document while the stream fails with a drawn error kind at a drawn offset (or a seek fails); non-trivial: the fault, an interruption or a short read really happened", real: LOAD_REAL, stub: LOAD_STUB },
        Prop { id: "C03", run: loading::c03, quick: 2_400_000, thorough: 60_000_000, plain: 0, rule: "each run ends the stream of a generated document at a drawn offset (biased to record boundaries and one byte around them) and compares with what is complete there; non-trivial: short or interrupted reads as well, or the cut removed something", real: LOAD_REAL, stub: LOAD_STUB },
        Prop { id: "C04", run: loading::c04, quick: 2_400_000, thorough: 60_000_000, plain: 0, rule: "each run makes a load fail part-way (stream error, seek error, cut, damaged token, face with unknown or repeated vertices) on empty or filled containers; non-trivial: the load failed or was perturbed", real: LOAD_REAL, stub: LOAD_STUB },
        Prop { id: "C05", run: loading::c05, quick: 2_000_000, thorough: 60_000_000, plain: 2_400, rule: "each run damages a generated document (extreme counts and sizes, flipped, removed, duplicated and spliced bytes, wild tokens) and loads it with a counting allocator and call budgets, or loads one with tens of thousands of lines or blocks without meaning in a row; non-trivial: every run", real: LOAD_REAL, stub: LOAD_STUB },
        Prop { id: "C06", run: loading::c06, quick: 1_200_000, thorough: 30_000_000, plain: 0, rule: "each run steps one to three incremental readers over independent streams in a drawn interleaving, abandons some, polls others past their end, and compares each with a bulk load of the same stream; non-trivial: perturbed delivery, a fault, or more than one reader", real: LOAD_REAL, stub: LOAD_STUB },
        Prop { id: "C07", run: loading::c07, quick: 2_000_000, thorough: 50_000_000, plain: 0, rule: "each run damages one token of a text document and checks the reported line under a drawn delivery plan; non-trivial: short or interrupted reads", real: LOAD_REAL, stub: LOAD_STUB },
        Prop { id: "C08", run: saving::c08, quick: 2_000_000, thorough: 50_000_000, plain: 0, rule: "each run saves a drawn cloud or mesh in one of 9 ways to a sink with drawn short writes and interruptions, often failing, refusing or full at a drawn offset, directly or through a BufWriter; non-trivial: the sink perturbed at least one write", real: SAVE_REAL, stub: SAVE_STUB },
        Prop { id: "C09", run: saving::c09, quick: 1_600_000, thorough: 40_000_000, plain: 0, rule: "each run saves a drawn cloud or mesh (sometimes to a failing device), keeps a drawn prefix of what was accepted as the durable document, and loads it back under a drawn delivery plan; non-trivial: something was lost, failed or perturbed", real: SAVE_REAL, stub: SAVE_STUB },
        Prop { id: "C10", run: algos::c10, quick: 500_000, thorough: 10_000_000, plain: 0, rule: "each run executes a chain of mesh algorithms, a spatial grouping, a removal of duplicates or an STL load with unique vertices under two or three drawn seeds of the randomised hasher and compares with a plain ordered computation; non-trivial: every run (it is repeated under another seed)", real: ALGO_REAL, stub: ALGO_STUB },
        Prop { id: "C11", run: selections::c11, quick: 500_000, thorough: 10_000_000, plain: 0, rule: "each run builds octrees or plays a history of filters, unions and selections on one of five collections under two or three drawn seeds of the randomised hasher and compares every answer with a plain ordered computation; non-trivial: every run (it is repeated under another seed)", real: SEL_REAL, stub: ALGO_STUB },
        Prop { id: "C12", run: sessions::c12, quick: 1_600_000, thorough: 40_000_000, plain: 0, rule: "each run is a session of up to 20 valid, refused, failing and interrupted operations on one mesh, collection, index container or polygon, with loads from faulty streams, saves to faulty sinks and crashes with restarts from storage, compared with a plain model after every step; non-trivial: at least one operation was refused, failed, perturbed or lost in a crash", real: SES_REAL, stub: SAVE_STUB },
        Prop { id: "C13", run: interrupts::c13, quick: 1_200_000, thorough: 30_000_000, plain: 0, rule: "each run executes one operation calling user code (filters, selections, trees, growing and sorting collections, collision callbacks, outlier search, 17 loads, 10 saves), interrupts it by a panic at a drawn invocation up to three times, compares what is left with the state before, and repeats it undisturbed; non-trivial: a panic was injected or the I/O perturbed", real: INT_REAL, stub: INT_STUB },
        Prop { id: "C14", run: sequences::c14, quick: 1_400_000, thorough: 50_000_000, plain: 0, rule: "each run stores one to four PLY, STL and PSL documents back to back in one stream (other bytes or a device fault behind them), loads them one after another in bulk or record by record under a drawn delivery plan and compares data and stream position after each; non-trivial: short or interrupted reads, or a fault", real: LOAD_REAL, stub: LOAD_STUB },
        Prop { id: "C15", run: concurrency::c15, quick: 300_000, thorough: 20_000_000, plain: 0, rule: "each run executes two to four operations (bulk and incremental loads, saves, queries, filters and algorithms on shared structures), each alone first, then all in flight at the same time: on threads of which the simulator lets one proceed at a time from one call into the environment to another, or nested in one another through such calls; non-trivial: at least one switch", real: CON_REAL, stub: CON_STUB },
    ]
}

pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
