"""P01 - P05, P07: palettes (Palette.tla, Pipeline.tla, Witness.tla, TracePalette.tla); P05 also
the order of swatches (SwatchOrder.tla, TraceOrder.tla)."""
import multiprocessing, random
from . import images
from .core import CPUS


def make(job):
    seed, kind = job
    rng = random.Random(seed)
    if kind in ("large", "wide", "mosaic", "edgy", "nested", "huge", "far", "whole"):
        return getattr(images, kind)(rng), None, rng
    img, wit = images.decided(rng, getattr(images, kind))
    return img, wit, rng


def judged(ctx, judge, kinds):
    """Images with witness; kinds: list of (kind, number)."""
    jobs = [(f"{ctx.seed}/{judge}/{kind}/{n}", kind) for kind, count in kinds for n in range(count)]
    with multiprocessing.Pool(CPUS) as pool:
        made = pool.map(make, jobs, chunksize=1)
    cases = []
    for no, (img, wit, rng) in enumerate(made):
        if wit is None:  # f32 cannot tell the columns of such wide images
            prec = "f64" if max(img["w"], img["h"]) > 1000 or no % 3 else "f32"
            cases.append(images.block_case(img, rng, judge, prec))
            continue
        c = images.case(img, rng, judge, "f32" if no % 3 == 2 else "f64")
        c["wit"] = wit
        cases.append(c)
    return cases


def design(ctx, *negative):
    ctx.model("Pipeline", "Pipeline_small")
    ctx.model("Pipeline", "Pipeline_large")
    ctx.model("BlockScan", ctx.pick("BlockScan_small", "BlockScan_large"))
    ctx.model("BlockScan", "BlockScan_margin")
    for cfg, name in negative:
        ctx.model("Pipeline", cfg, name)


def brief(records):
    out = []
    for r in records[:3]:
        i = r["in"]
        out.append({"w": i["w"], "h": i["h"], "prec": i["prec"], "colors": i["colors"][:6], "palette": r.get("out")})
    return out


def run(ctx, cases):
    records = ctx.execute(cases, stall=400)
    ctx.samples = brief(records)
    ctx.notes["pixels"] = sum(c["w"] * c["h"] for c in cases)
    ctx.notes["clusters"] = sum(c["wit"]["k"] for c in cases if "wit" in c)
    ctx.notes["swatches"] = sum(len(r["out"]) for r in records if r["outcome"] == "ok")
    ctx.validate("TracePalette", "TracePalette", records)
    return False


def kinds(ctx):
    return [("strip", ctx.pick(70, 500)), ("two_strips", ctx.pick(6, 40)), ("picture", ctx.pick(16, 120)),
            ("large", ctx.pick(12, 80)), ("wide", ctx.pick(3, 16)), ("mosaic", ctx.pick(2, 10)),
            ("edgy", ctx.pick(10, 60)), ("nested", ctx.pick(6, 40)),
            ("huge", ctx.pick(2, 10))]


ASSUME = ["an image is only judged when no pixel distance that matters is within 0.08 % of the radius 0.025 (other images are regenerated)"]


def p01(ctx):
    design(ctx, ("Pipeline_neg_noise", "OnePerCluster"))
    ctx.model("Witness", ctx.pick("Witness_small", "Witness_large"))
    ctx.model("Witness", "Witness_margin")
    ctx.model("Witness", "Witness_neg_link", "Decides")
    ctx.model("Witness", "Witness_neg_root", "Decides")
    ctx.model("Witness", "Witness_two", "NeverTwo")
    for skip in ("dense", "linked", "apart", "foreign", "thin"):
        ctx.model("BlockScan", "BlockScan_neg_" + skip, "Decides")
    ctx.model("BlockScan", "BlockScan_rich", "NeverRich")
    ctx.build(hooks=False)
    ctx.assumptions += ASSUME
    return run(ctx, judged(ctx, "P01", kinds(ctx)))


def p02(ctx):
    design(ctx, ("Pipeline_neg_order", "OwnShare"))
    ctx.build(hooks=False)
    ctx.assumptions += ASSUME
    return run(ctx, judged(ctx, "P02", kinds(ctx)))


def p03(ctx):
    design(ctx)
    ctx.model("ColorPath", "ColorPath_small")
    ctx.build(hooks=False)
    ctx.assumptions += ASSUME
    return run(ctx, judged(ctx, "P03", kinds(ctx) + [("mixture", ctx.pick(30, 250))]))


def p04(ctx):
    design(ctx, ("Pipeline_neg_rows", "OwnPlace"))
    ctx.build(hooks=False)
    ctx.assumptions += ASSUME
    return run(ctx, judged(ctx, "P04", kinds(ctx) + [("far", ctx.pick(1, 4)), ("whole", ctx.pick(4, 30))]))


CHECKS = {"P01": p01, "P02": p02, "P03": p03, "P04": p04}
