export const VIEWPORTS = [[1000, 600], [1280, 800], [1920, 1080], [700, 500], [400, 700], [1000, 300]];
export function page(rng, req, profiles) { return { gen: [req.seed, req.index, rng.weighted(profiles)] }; }
export const actCount = (rng, req, lo, hi) => { const k = req.tier === "thorough" ? 2 : 1; return rng.int(lo, hi * k); };
