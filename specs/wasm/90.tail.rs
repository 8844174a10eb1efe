verus! { pub fn top_main() {} }
