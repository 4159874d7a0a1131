PROPERTY = "C22"
NEEDS = "an index of a generic element type, reloaded with other type arguments of the same size"
BREAKS = "the element type is compared without its type arguments, so a dump of Option<u16> is reloaded as Option<i16>"
EDITS = [("src/hnswio.rs", "            && std::any::type_name::<T>() != descr.t_name\n        {\n            error!(\n                \"typename loaded", "            && std::any::type_name::<T>().split('<').next() != descr.t_name.split('<').next()\n        {\n            error!(\n                \"typename loaded")]
DEMO = r'''
use hnsw_rs::hnswio::*;
#[derive(Default, Clone)]
struct D;
impl Distance<Option<u16>> for D { fn eval(&self, a: &[Option<u16>], b: &[Option<u16>]) -> f32 { a.iter().zip(b).filter(|(x, y)| x != y).count() as f32 } }
impl Distance<Option<i16>> for D { fn eval(&self, a: &[Option<i16>], b: &[Option<i16>]) -> f32 { a.iter().zip(b).filter(|(x, y)| x != y).count() as f32 } }
fn main() {
    let d = scratch("d");
    let mut r = Lcg(4);
    let h = Hnsw::<Option<u16>, D>::new(8, 100, 16, 50, D);
    for i in 0..50usize {
        let v: Vec<Option<u16>> = (0..5).map(|_| Some((r.next() % 60000) as u16)).collect();
        h.insert((&v, i));
    }
    h.file_dump(&d, "base").unwrap();
    let mut io = HnswIo::new(&d, "base");
    let good: Result<Hnsw<Option<u16>, D>, _> = io.load_hnsw();
    assert!(good.is_ok());
    let mut io = HnswIo::new(&d, "base");
    let bad: Result<Hnsw<Option<i16>, D>, _> = io.load_hnsw();
    assert!(bad.is_err(), "reloaded with another element type");
}
'''
