#!/usr/bin/env python3
"""gen_swap.py REPO OUT: copies wasm/swap.rs so that it compiles natively: the JsValue argument becomes the decoded
vector, the from_value decoding line, wasm_bindgen attributes and imports go away, crate:: names the SDK crate.
Everything else of the file is copied as it is. Exits 1 when the file does not have that shape."""
import re, sys
src = open(sys.argv[1] + '/wasm/swap.rs').read()
src = re.split(r'#\[cfg\(test\)\]', src)[0]
n0 = src.count('JsValue')
src = re.sub(r'^\s*#!?\[wasm_bindgen[^\]]*\]\s*$', '', src, flags=re.M)
src = re.sub(r'^use (wasm_bindgen|serde_wasm_bindgen|tsify)[^;]*;\s*$', '', src, flags=re.M)
src, a = re.subn(r'(\w+)\s*:\s*JsValue', r'\1: Vec<oraiswap_v3_wasm::LiquidityTick>', src)
src, b = re.subn(r'^\s*let\s+(?:mut\s+)?\w+\s*(?::[^=;]*)?=\s*(?:serde_wasm_bindgen::)?from_value(?:::<[^;]*>)?\(\s*\w+\s*\)\s*\.\s*(?:unwrap\(\)|expect\([^)]*\))\s*;', '', src, flags=re.M)
src = re.sub(r'\bcrate::', 'oraiswap_v3_wasm::', src)
if a != 1 or b != 1 or 'JsValue' in src or 'from_value' in src: sys.exit(1)
open(sys.argv[2], 'w').write(src)
