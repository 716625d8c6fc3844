"""Which driver, trace specification and TLC models decide each property."""
CHECKS = {
    "C01": dict(driver="d_images.py", trace="TraceImages", cfg="TraceN.cfg", min_records=300),
    "C02": dict(driver="d_images.py", trace="TraceMag", cfg="TraceN.cfg", min_records=300),
    "C03": dict(driver="d_curves.py", trace="TraceCurves", cfg="TraceN.cfg", min_records=50),
    "C04": dict(driver="d_roots.py", trace="TraceRoots", min_records=300, models=[dict(module="BatchSolve", cfg="BatchSolve.cfg")]),
    "C05": dict(driver="d_driver.py", trace="TraceDriver", cfg="TraceN.cfg", min_records=300, shards=8,
                models=[dict(module="Driver", cfg="Driver.cfg"), dict(module="Driver", cfg="DriverBig.cfg", tiers=("thorough",), workers=4, timeout=1500)]),
    "C06": dict(driver="d_driver.py", trace="TraceDriver", cfg="TraceN.cfg", min_records=60, shards=8,
                models=[dict(module="Driver", cfg="Driver.cfg"), dict(module="Driver", cfg="DriverBig.cfg", tiers=("thorough",), workers=4, timeout=1500)]),
    "C12": dict(driver="d_like.py", trace="TraceLike", cfg="TraceN.cfg", min_records=300),
    "C13": dict(driver="d_like.py", trace="TraceFit", cfg="TraceN.cfg", min_records=300),
    "C14": dict(driver="d_parallax.py", trace="TraceParallax", cfg="TraceN.cfg", min_records=300),
    "C16": dict(driver="d_special.py", trace="TraceSpecial", cfg="TraceN.cfg", min_records=300),
    "C19": dict(driver="d_util.py", trace="TraceUtil", cfg="TraceN.cfg", min_records=4000,
                models=[dict(module="Matching", cfg="Matching.cfg"), dict(module="Matching", cfg="MatchingBig.cfg", tiers=("thorough",), workers=4, timeout=1500)]),
    "C15": dict(driver="d_fast.py", trace="TraceFast", cfg="TraceN.cfg", min_records=100),
    "C07": dict(driver="d_disk.py", trace="TraceDisk", cfg="TraceN.cfg", min_records=300, shards=8,
                models=[dict(module="Regions", cfg="Regions.cfg"), dict(module="Regions", cfg="RegionsBig.cfg", tiers=("thorough",), workers=4, timeout=1500)]),
    "C09": dict(driver="d_multipole.py", trace="TraceMultipole", cfg="TraceN.cfg", min_records=200),
    "C10": dict(driver="d_contour.py", trace="TraceDisk", cfg="TraceN.cfg", min_records=300, shards=8),
    "C11": dict(driver="d_stitch.py", trace="TraceStitch", cfg="TraceN.cfg", min_records=300,
                models=[dict(module="Stitch", cfg="Stitch.cfg"), dict(module="Stitch", cfg="Stitch3.cfg"),
                        dict(module="Stitch", cfg="Stitch3Big.cfg", tiers=("thorough",), workers=4, timeout=1800),
                        dict(module="Stitch", cfg="StitchBig.cfg", tiers=("thorough",), workers=4, timeout=1800)]),
    "C08": dict(driver="d_disk.py", trace="TraceDisk", cfg="TraceN.cfg", min_records=300, shards=8),
    "C20": dict(driver="d_hybrid.py", trace="TraceDisk", cfg="TraceN.cfg", min_records=300, shards=8),
    "C17": dict(driver="d_grad.py", trace="TraceGrad", cfg="TraceN.cfg", min_records=300, shards=8),
}
