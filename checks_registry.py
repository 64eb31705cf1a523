PROPS = {}
PROPS["C12"] = dict(
    mc=[dict(mod="MCGridSearch", cfg="MCGridSearch.cfg")],
    gen=dict(mod="MCGridSearch", cfg="GenGridSearch.cfg"),
    driver="drv_grid", trace="TraceGridSearch", shards=8, min_scenarios=1000)
PROPS["C05"] = dict(
    mc=[dict(mod="MCTree", cfg="MCTree.cfg", cfg_thorough="MCTreeT.cfg", min_distinct=1000)],
    gen=dict(mod="MCTree", cfg="GenTree.cfg", cfg_thorough="GenTreeT.cfg"),
    driver="drv_tree", trace="TraceContainers", shards=8, min_scenarios=150)
PROPS["C04"] = dict(
    mc=[dict(mod="MCLinearMap", cfg="MCLinearMap.cfg", cfg_thorough="MCLinearMapT.cfg", min_distinct=1000)],
    gen=dict(mod="MCLinearMap", cfg="GenLinearMap.cfg"),
    driver="drv_mv", trace="TraceLinearMap", shards=8, min_scenarios=150)
for _p, _d in (("C02", "drv_ggn"), ("C03", "drv_hess")):
    PROPS[_p] = dict(
        mc=[dict(mod="MCCurvature", cfg="MCCurvature.cfg", cfg_thorough="MCCurvatureT.cfg", min_distinct=1000)],
        gen=dict(mod="MCCurvature", cfg="GenCurvature.cfg"),
        driver=_d, trace="TraceCurvature", shards=8, min_scenarios=100)
PROPS["C01"] = dict(
    mc=[dict(mod="MCStreaming", cfg="MCStreaming.cfg", cfg_thorough="MCStreamingT.cfg", min_distinct=1000)],
    gen=dict(mod="MCStreaming", cfg="GenStreaming.cfg", cfg_thorough="GenStreamingT.cfg"),
    driver="drv_stream", trace="TraceStreaming", shards=8, min_scenarios=200)
PROPS["C06"] = dict(
    mc=[dict(mod="MCPosterior", cfg="MCPosterior.cfg", cfg_thorough="MCPosteriorT.cfg", min_distinct=1000)],
    gen=dict(mod="MCPosterior", cfg="GenPosterior.cfg"),
    driver="drv_post", trace="TracePosterior", shards=8, min_scenarios=100)
PROPS["C07"] = dict(
    mc=[dict(mod="MCLowRank", cfg="MCLowRank.cfg", min_distinct=1000)],
    gen=dict(mod="MCLowRank", cfg="GenLowRank.cfg"),
    driver="drv_lowrank", trace="TraceLowRank", shards=8, min_scenarios=100)
PROPS["C08"] = dict(
    mc=[dict(mod="MCModeMachine", cfg="MCModeMachine.cfg", cfg_thorough="MCModeMachineT.cfg", min_distinct=100000)],
    gen=dict(mod="MCModeMachine", cfg="GenModeMachine.cfg"),
    driver="drv_mode", trace="TraceModeMachine", shards=8, min_scenarios=150)
for _p, _d in (("C09", "drv_lin"), ("C10", "drv_nonlin")):
    PROPS[_p] = dict(
        mc=[dict(mod="MCPushforward", cfg="MCPushforward.cfg", cfg_thorough="MCPushforwardT.cfg", min_distinct=10000)],
        gen=dict(mod="MCPushforward", cfg="GenPushforward.cfg"),
        driver=_d, trace="TracePushforward", shards=8, min_scenarios=100)
PROPS["C11"] = dict(
    mc=[dict(mod="MCPredictives", cfg="MCPredictives.cfg", cfg_thorough="MCPredictivesT.cfg", min_distinct=1000)],
    gen=dict(mod="MCPredictives", cfg="GenPredictives.cfg"),
    driver="drv_pred", trace="TracePredictives", shards=8, min_scenarios=200)
PROPS["C18"] = dict(
    mc=[dict(mod="MCResultFns", cfg="MCResultFns.cfg", min_distinct=10000)],
    gen=dict(mod="MCResultFns", cfg="GenResultFns.cfg"),
    driver="drv_fns", trace="TraceResultFns", shards=8, min_scenarios=1000)
PROPS["C15"] = dict(
    mc=[dict(mod="MCMetrics", cfg="MCMetrics.cfg", cfg_thorough="MCMetricsT.cfg", min_distinct=10000)],
    gen=dict(mod="MCMetrics", cfg="GenMetrics.cfg"),
    driver="drv_metrics", trace="TraceMetrics", shards=8, min_scenarios=500)
PROPS["C17"] = dict(
    mc=[dict(mod="MCEvidence", cfg="MCEvidence.cfg", min_distinct=10000)],
    gen=dict(mod="MCEvidence", cfg="GenEvidence.cfg"),
    driver="drv_evid", trace="TraceEvidence", shards=8, min_scenarios=300)
PROPS["C16"] = dict(
    mc=[dict(mod="MCRegistry", cfg="MCRegistry.cfg", cfg_thorough="MCRegistryT.cfg", min_distinct=10000)],
    gen=dict(mod="MCRegistry", cfg="GenRegistry.cfg", extra=["-simulate", "num=400", "-depth", "7", "-seed", "$SEED"],
             extra_thorough=["-simulate", "num=6000", "-depth", "7", "-seed", "$SEED"]),
    driver="drv_reg", trace="TraceRegistry", shards=8, min_scenarios=150)
PROPS["C14"] = dict(
    mc=[dict(mod="MCEvaluation", cfg="MCEvaluation.cfg", cfg_thorough="MCEvaluationT.cfg", min_distinct=5000)],
    gen=dict(mod="MCEvaluation", cfg="GenEvaluation.cfg", extra=["-simulate", "num=400", "-depth", "200", "-seed", "$SEED"],
             extra_thorough=["-simulate", "num=6000", "-depth", "200", "-seed", "$SEED"]),
    driver="drv_eval", trace="TraceEvaluation", shards=8, min_scenarios=150)
PROPS["C13"] = dict(
    mc=[dict(mod="MCCalibration", cfg="MCCalibration.cfg", min_distinct=1000)],
    gen=dict(mod="MCCalibration", cfg="GenCalibration.cfg"),
    driver="drv_calib", trace="TraceCalibration", shards=8, min_scenarios=150)
PROPS["C19"] = dict(
    mc=[dict(mod="MCFitting", cfg="MCFitting.cfg", cfg_thorough="MCFittingT.cfg", min_distinct=2000)],
    gen=dict(mod="MCFitting", cfg="GenFitting.cfg", extra=["-simulate", "num=400", "-depth", "11", "-seed", "$SEED"],
             extra_thorough=["-simulate", "num=6000", "-depth", "11", "-seed", "$SEED"]),
    driver="drv_fit", trace="TraceFitting", shards=8, min_scenarios=120)
PROPS["C20"] = dict(
    mc=[dict(mod="MCGradients", cfg="MCGradients.cfg", cfg_thorough="MCGradientsT.cfg", min_distinct=5000)],
    gen=dict(mod="MCGradients", cfg="GenGradients.cfg"),
    driver="drv_grad", trace="TraceGradients", shards=8, min_scenarios=150)
