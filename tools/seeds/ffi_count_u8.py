PROPERTY = "C29"
NEEDS = "a request through the C interface for more than 255 neighbours"
BREAKS = "the number of neighbours announced in the answer is truncated to eight bits"
EDITS = [("src/libext.rs", "            let nbgh_i = neighbours.len() as i64;", "            let nbgh_i = neighbours.len() as u8 as i64;")]
DEMO = r'''
use hnsw_rs::libext::*;
fn main() {
    unsafe {
        let name = b"DistL1";
        let api = init_hnsw_i32(16, 400, name.len(), name.as_ptr());
        assert!(!api.is_null());
        let mut r = Lcg(5);
        for i in 0..400usize {
            let v: Vec<i32> = (0..4).map(|_| (r.next() % 1000) as i32).collect();
            insert_i32(api as *mut _, 4, v.as_ptr(), i);
        }
        let q = vec![500i32; 4];
        for k in [10usize, 255, 300] {
            let a = search_neighbours_i32(api, 4, q.as_ptr(), k, 400);
            let n = (*a).nbgh as usize;
            assert!(n > k - 1 - k / 20 && n <= k, "{} neighbours announced of {} asked", n, k);
        }
    }
}
'''
