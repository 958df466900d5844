"""Fourth set: constraints that say the same by way of other constraints, functional forms written otherwise"""
SPECS = {}
# M01,M09
SPECS['eq-reduction-product'] = [('mimosa/components/emissions.py',
  '== m.baseline[t, r] - m.regional_emissions[t, r],',
  '== (m.baseline[t, r] * m.relative_abatement[t, r] if t > 0 else m.baseline[t, r] - m.regional_emissions[t, r]),')]
# M09,M11
SPECS['eq-mitig-area'] = [('mimosa/components/mitigation.py',
  '== AC(m.relative_abatement[t, r], m, t, r) * m.baseline[t, r]\n                + m.import_export_mitigation_cost_balance[t, r],',
  '== m.area_under_MAC[t, r] + m.import_export_mitigation_cost_balance[t, r],')]
# M14,M15
SPECS['eq-consumption'] = [('mimosa/components/cobbdouglas.py', '== (1 - m.sr) * m.GDP_net[t, r],', '== m.GDP_net[t, r] - m.investments[t, r],')]
# M14
SPECS['eq-investments'] = [('mimosa/components/cobbdouglas.py',
  'm.investments[t, r] == m.sr * m.GDP_net[t, r],',
  'm.investments[t, r] == m.GDP_net[t, r] - m.consumption[t, r],')]
# M03
SPECS['eq-temp-incr'] = [('mimosa/components/emissions.py',
  '                lambda m, t: m.temperature[t]\n                == m.T0 + m.TCRE * m.cumulative_emissions[t],',
  '                lambda m, t: m.temperature[t]\n'
  '                == (m.temperature[t - 1] + m.TCRE * (m.cumulative_emissions[t] - m.cumulative_emissions[t - 1]) if t > 0 else m.T0),')]
# M09,M13
SPECS['eq-relmit-product'] = [('mimosa/components/mitigation.py',
  'm.rel_mitigation_costs[t, r]\n                == m.mitigation_costs[t, r] / m.GDP_gross[t, r],',
  'm.rel_mitigation_costs[t, r] * m.GDP_gross[t, r]\n                == m.mitigation_costs[t, r],')]
# M01
SPECS['eq-relcum-product'] = [('mimosa/components/emissions.py',
  '                        m.emission_relative_cumulative[t]\n'
  '                        == m.cumulative_emissions[t]\n'
  '                        / m.cumulative_global_baseline_emissions[t]',
  '                        m.emission_relative_cumulative[t]\n'
  '                        * m.cumulative_global_baseline_emissions[t]\n'
  '                        == m.cumulative_emissions[t]')]
# M11,M13
SPECS['eq-allow'] = [('mimosa/components/emissiontrade/emissiontrade.py',
  '== m.baseline[t, r] - m.paid_for_emission_reductions[t, r]',
  '== m.regional_emissions[t, r] - m.import_export_emission_reduction_balance[t, r]')]
# M05
SPECS['eq-inertia-init'] = [('mimosa/components/emissions.py',
  '>= m.dt * m.inertia_regional * m.baseline_emissions[0, r]',
  '>= m.dt * m.inertia_regional * m.regional_emissions[0, r]')]
# M05
SPECS['eq-ginertia-init'] = [('mimosa/components/emissions.py',
  '                    * sum(m.baseline_emissions[0, r] for r in m.regions)\n                    if value(m.inertia_global)',
  '                    * m.global_emissions[0]\n                    if value(m.inertia_global)')]
# M04
SPECS['eq-netzero-sum'] = [('mimosa/components/emissions.py',
  '                    m.global_emissions[t] <= 0\n',
  '                    sum(m.regional_emissions[t, r] for r in m.regions) <= 0\n')]
# M07
SPECS['eq-t0-temp0'] = [('mimosa/components/damages/coacch.py', 'm.T0 - 0.6, m, r, is_slr=False', 'm.temperature[0] - 0.6, m, r, is_slr=False')]
# M04
SPECS['eq-budget-temp'] = [('mimosa/components/emissions.py',
  'm.temperature[t] <= m.temperature_target\n',
  'm.T0 + m.TCRE * m.cumulative_emissions[t] <= m.temperature_target\n')]
# M04,M05
SPECS['eq-tuple'] = [('mimosa/components/emissions.py', 'm.global_emissions[t] >= m.global_min_level', '(m.global_min_level, m.global_emissions[t], None)'),
 ('mimosa/components/emissions.py',
  'm.regional_emissions[t, r] - m.regional_emissions[t - 1, r] <= 0',
  '(None, m.regional_emissions[t, r] - m.regional_emissions[t - 1, r], 0)')]
# M08,M09
SPECS['eq-price-area'] = [('mimosa/components/mitigation.py',
  'm.area_under_MAC[t, r]\n                == AC(m.relative_abatement[t, r], m, t, r) * m.baseline[t, r],',
  'm.area_under_MAC[t, r]\n'
  '                == MAC(m.relative_abatement[t, r], m, t, r) * m.relative_abatement[t, r] / (m.MAC_beta + 1) * m.baseline[t, r],')]
# M07
SPECS['eq-damage-first-zero'] = [('mimosa/components/damages/coacch.py',
  '            == m.damage_costs_non_slr[t, r] + m.damage_costs_slr[t, r],',
  '            == (m.damage_costs_non_slr[t, r] + m.damage_costs_slr[t, r] if t > 0 else 0),')]
# M12
SPECS['eq-transfer-floor-t0'] = [('mimosa/components/financialtransfer/globaldamagepool.py',
  '                lambda m, t, r: m.financial_transfer[t, r]\n                >= -m.damage_costs[t, r] * m.GDP_gross[t, r],',
  '                lambda m, t, r: (\n'
  '                    m.financial_transfer[t, r]\n'
  '                    >= -m.damage_costs[t, r] * m.GDP_gross[t, r]\n'
  '                    if t > 0\n'
  '                    else Constraint.Skip\n'
  '                ),')]
# M12
SPECS['eq-transfer-balance-t0'] = [('mimosa/components/financialtransfer/globaldamagepool.py',
  '                lambda m, t: (\n'
  '                    sum(m.financial_transfer[t, r] for r in m.regions) == 0.0\n'
  '                    if t > 0\n'
  '                    else Constraint.Skip\n'
  '                ),',
  '                lambda m, t: sum(m.financial_transfer[t, r] for r in m.regions) == 0.0,')]
# M12
SPECS['eq-rel-transfer-div'] = [('mimosa/components/financialtransfer/globaldamagepool.py',
  'm.rel_financial_transfer[t, r] * m.GDP_gross[t, r]\n                == m.financial_transfer[t, r],',
  'm.rel_financial_transfer[t, r]\n                == m.financial_transfer[t, r] / m.GDP_gross[t, r],')]
# M11
SPECS['eq-pool-balance'] = [('mimosa/components/emissiontrade/globalcostpool.py',
  'lambda m, t: sum(m.mitigation_costs[t, r] for r in m.regions)\n                == sum(m.area_under_MAC[t, r] for r in m.regions),',
  'lambda m, t: sum(m.import_export_mitigation_cost_balance[t, r] for r in m.regions) == 0,')]
# M11
SPECS['eq-trade-balance'] = [('mimosa/components/emissiontrade/emissiontrade.py',
  '                lambda m, t: sum(\n'
  '                    m.import_export_mitigation_cost_balance[t, r] for r in m.regions\n'
  '                )\n'
  '                == 0.0,',
  '                lambda m, t: sum(m.mitigation_costs[t, r] for r in m.regions)\n'
  '                == sum(m.area_under_MAC[t, r] for r in m.regions),')]
# M11
SPECS['eq-paid'] = [('mimosa/components/emissiontrade/globalcostpool.py',
  '                    == m.paid_for_emission_reductions[t, r]\n                    - m.regional_emission_reduction[t, r]',
  '                    == m.mitigation_costs[t, r] * m.global_emission_reduction_per_cost_unit[t]\n'
  '                    - m.regional_emission_reduction[t, r]')]
# M16
SPECS['eq-npv-last'] = [('mimosa/components/objective/utility.py',
  'rule=lambda m: m.NPV[m.tf]',
  'rule=lambda m: sum(m.dt * exp(-m.PRTP * (m.year(t) - m.beginyear)) * m.yearly_welfare[t] for t in m.t if t > 0)')]
# M16
SPECS['eq-npv-year0'] = [('mimosa/components/objective/utility.py', '(m.year(t) - m.beginyear)', '(m.year(t) - m.year(0))')]
# M16
SPECS['eq-npv-tdt'] = [('mimosa/components/objective/utility.py', '(m.year(t) - m.beginyear)', '(t * m.dt)'),
 ('mimosa/components/objective/globalcosts.py', '(m.year(t) - m.beginyear)', 'm.dt * t')]
# M16
SPECS['eq-discount-power'] = [('mimosa/components/objective/utility.py', 'exp(-m.PRTP * (m.year(t) - m.beginyear))', 'exp(-m.PRTP * m.dt) ** t')]
# M15
SPECS['eq-welfare-mean'] = [('mimosa/components/welfare/welfare_loss_minimising.py',
  '== sum(m.population[t, r] * m.utility[t, r] for r in m.regions)',
  '== sum(m.population[t, r] for r in m.regions) * (sum(m.population[t, r] * m.utility[t, r] for r in m.regions) / sum(m.population[t, r] '
  'for r in m.regions))')]
# M15
SPECS['eq-percap-scale'] = [('mimosa/components/welfare/utility_fct.py',
  '(soft_min(consumption / population) ** (1 - elasmu) - 1) / (1 - elasmu)',
  'soft_min(consumption / population) ** (1 - elasmu) / (1 - elasmu) - 1 / (1 - elasmu)')]
# M14
SPECS['eq-capital-form'] = [('mimosa/components/cobbdouglas.py',
  '                        == m.capital_stock[t - 1, r]\n                        + m.dt\n                        * economics',
  '                        - m.capital_stock[t - 1, r]\n                        == m.dt\n                        * economics')]
# M10
SPECS['eq-lbd-base2'] = [('mimosa/components/mitigation.py', '** m.log_LBD_rate,', '** (log(m.LBD_rate) / log(2)),')]
# M10
SPECS['eq-lot-recursive'] = [('mimosa/components/mitigation.py',
  'lambda m, t: m.LOT_factor[t] == 1 / (1 + m.LOT_rate) ** t, "LOT"',
  'lambda m, t: m.LOT_factor[t] == (m.LOT_factor[t - 1] / (1 + m.LOT_rate) if t > 0 else 1), "LOT"')]
# M06,M07
SPECS['eq-slr-total-inline'] = [('mimosa/components/sealevelrise.py',
  'lambda m, t: m.total_SLR[t]\n            == m.slr_thermal[t] + m.slr_cumgsic[t] + m.slr_cumgis[t],',
  'lambda m, t: m.total_SLR[t] - m.slr_thermal[t] - m.slr_cumgsic[t]\n            == m.slr_cumgis[t],')]
# M09
SPECS['eq-global-rel'] = [('mimosa/components/mitigation.py',
  '== sum(m.mitigation_costs[t, r] for r in m.regions)\n                / sum(m.GDP_gross',
  '== sum(m.rel_mitigation_costs[t, r] * m.GDP_gross[t, r] for r in m.regions)\n                / sum(m.GDP_gross')]
# M11
SPECS['eq-global-price'] = [('mimosa/components/emissiontrade/emissiontrade.py',
  'sum(m.carbonprice[t, r] * m.population[t, r] for r in m.regions)\n                / sum(m.population[t, r] for r in m.regions)',
  'sum(m.carbonprice[t, r] * (m.population[t, r] / sum(m.population[t, s] for s in m.regions)) for r in m.regions)')]
# M16
SPECS['eq-costs-npv'] = [('mimosa/components/objective/globalcosts.py',
  '                        sum(m.mitigation_costs[t, r] for r in m.regions)\n'
  '                        + sum(\n'
  '                            m.damage_costs[t, r] * m.GDP_gross[t, r] for r in m.regions\n'
  '                        )',
  '                        sum(m.mitigation_costs[t, r] + m.damage_costs[t, r] * m.GDP_gross[t, r] for r in m.regions)')]
# M13
SPECS['eq-regime-early'] = [('mimosa/components/effortsharing.py',
  '            ignore_if=lambda m, t, r: value(m.effort_sharing_regime)\n'
  '            != "equal_total_costs"\n'
  '            or m.year(t) > 2100,',
  '            ignore_if=lambda m, t, r: not (\n'
  '                value(m.effort_sharing_regime) == "equal_total_costs" and m.year(t) <= 2100\n'
  '            ),')]
# M13
SPECS['eq-total-sub'] = [('mimosa/components/effortsharing.py',
  '            lambda m, t, r: m.rel_mitigation_costs[t, r]\n'
  '            + m.damage_costs[t, r]\n'
  '            + m.rel_financial_transfer[t, r],\n'
  '            lambda m, t, r: m.effort_sharing_common_level[t],',
  '            lambda m, t, r: m.rel_financial_transfer[t, r] + (m.mitigation_costs[t, r] / m.GDP_gross[t, r] + m.damage_costs[t, r]),\n'
  '            lambda m, t, r: m.effort_sharing_common_level[t],')]
# M07
SPECS['form-endswith'] = [('mimosa/components/damages/coacch.py',
  '    if "Linear" in value(form):\n'
  '        return a * b1 * x / 100.0\n'
  '\n'
  '    # Quadratic functional form\n'
  '    if "Quadratic" in value(form):\n'
  '        return a * (b1 * x + b2 * x**2) / 100.0\n'
  '\n'
  '    # Logistic functional form\n'
  '    if "Logistic" in value(form):\n'
  '        return',
  '    form_ = value(form)\n'
  '    if form_.endswith("Linear"):\n'
  '        return a * b1 * x / 100.0\n'
  '\n'
  '    # Quadratic functional form\n'
  '    if form_.endswith("Quadratic"):\n'
  '        return a * (b1 * x + b2 * x**2) / 100.0\n'
  '\n'
  '    # Logistic functional form\n'
  '    if form_.endswith("Logistic"):\n'
  '        return')]
# M07
SPECS['form-split'] = [('mimosa/components/damages/coacch.py',
  '    if "Linear" in value(form):\n'
  '        return a * b1 * x / 100.0\n'
  '\n'
  '    # Quadratic functional form\n'
  '    if "Quadratic" in value(form):\n'
  '        return a * (b1 * x + b2 * x**2) / 100.0\n'
  '\n'
  '    # Logistic functional form\n'
  '    if "Logistic" in value(form):\n'
  '        return',
  '    form_ = value(form).split("-")[-1]\n'
  '    if form_ == "Linear":\n'
  '        return a * b1 * x / 100.0\n'
  '\n'
  '    # Quadratic functional form\n'
  '    if form_ == "Quadratic":\n'
  '        return a * (b1 * x + b2 * x**2) / 100.0\n'
  '\n'
  '    # Logistic functional form\n'
  '    if form_ == "Logistic":\n'
  '        return')]
# M07
SPECS['form-lower'] = [('mimosa/components/damages/coacch.py',
  '    if "Linear" in value(form):\n'
  '        return a * b1 * x / 100.0\n'
  '\n'
  '    # Quadratic functional form\n'
  '    if "Quadratic" in value(form):\n'
  '        return a * (b1 * x + b2 * x**2) / 100.0\n'
  '\n'
  '    # Logistic functional form\n'
  '    if "Logistic" in value(form):\n'
  '        return',
  '    form_ = value(form).lower()\n'
  '    if "linear" in form_:\n'
  '        return a * b1 * x / 100.0\n'
  '\n'
  '    # Quadratic functional form\n'
  '    if "quadratic" in form_:\n'
  '        return a * (b1 * x + b2 * x**2) / 100.0\n'
  '\n'
  '    # Logistic functional form\n'
  '    if "logistic" in form_:\n'
  '        return')]
# M07
SPECS['form-find'] = [('mimosa/components/damages/coacch.py',
  '    if "Linear" in value(form):\n'
  '        return a * b1 * x / 100.0\n'
  '\n'
  '    # Quadratic functional form\n'
  '    if "Quadratic" in value(form):\n'
  '        return a * (b1 * x + b2 * x**2) / 100.0\n'
  '\n'
  '    # Logistic functional form\n'
  '    if "Logistic" in value(form):\n'
  '        return',
  '    form_ = value(form)\n'
  '    if form_.find("Linear") >= 0:\n'
  '        return a * b1 * x / 100.0\n'
  '\n'
  '    # Quadratic functional form\n'
  '    if form_.find("Quadratic") >= 0:\n'
  '        return a * (b1 * x + b2 * x**2) / 100.0\n'
  '\n'
  '    # Logistic functional form\n'
  '    if form_.find("Logistic") >= 0:\n'
  '        return')]
# M07
SPECS['form-str'] = [('mimosa/components/damages/coacch.py',
  '    if "Linear" in value(form):\n'
  '        return a * b1 * x / 100.0\n'
  '\n'
  '    # Quadratic functional form\n'
  '    if "Quadratic" in value(form):\n'
  '        return a * (b1 * x + b2 * x**2) / 100.0\n'
  '\n'
  '    # Logistic functional form\n'
  '    if "Logistic" in value(form):\n'
  '        return',
  '    form_ = value(form)\n'
  '    if "Linear" in str(form_):\n'
  '        return a * b1 * x / 100.0\n'
  '\n'
  '    # Quadratic functional form\n'
  '    if "Quadratic" in str(form_):\n'
  '        return a * (b1 * x + b2 * x**2) / 100.0\n'
  '\n'
  '    # Logistic functional form\n'
  '    if "Logistic" in f"{form_}":\n'
  '        return')]
# M07
SPECS['form-kinds'] = [('mimosa/components/damages/coacch.py',
  '    if "Linear" in value(form):\n'
  '        return a * b1 * x / 100.0\n'
  '\n'
  '    # Quadratic functional form\n'
  '    if "Quadratic" in value(form):\n'
  '        return a * (b1 * x + b2 * x**2) / 100.0\n'
  '\n'
  '    # Logistic functional form\n'
  '    if "Logistic" in value(form):\n'
  '        return',
  '    kind = next((k for k in ("Linear", "Quadratic", "Logistic") if k in value(form)), None)\n'
  '    if kind == "Linear":\n'
  '        return a * b1 * x / 100.0\n'
  '\n'
  '    # Quadratic functional form\n'
  '    if kind == "Quadratic":\n'
  '        return a * (b1 * x + b2 * x**2) / 100.0\n'
  '\n'
  '    # Logistic functional form\n'
  '    if kind == "Logistic":\n'
  '        return')]
# M07
SPECS['form-exact-bug'] = [('mimosa/components/damages/coacch.py',
  '    if "Linear" in value(form):\n'
  '        return a * b1 * x / 100.0\n'
  '\n'
  '    # Quadratic functional form\n'
  '    if "Quadratic" in value(form):\n'
  '        return a * (b1 * x + b2 * x**2) / 100.0\n'
  '\n'
  '    # Logistic functional form\n'
  '    if "Logistic" in value(form):\n'
  '        return',
  '    form_ = value(form)\n'
  '    if form_.startswith("Robust-"):\n'
  '        return a * b1 * x / 100.0\n'
  '\n'
  '    # Quadratic functional form\n'
  '    if form_.endswith("Quadratic"):\n'
  '        return a * (b1 * x + b2 * x**2) / 100.0\n'
  '\n'
  '    # Logistic functional form\n'
  '    if form_.endswith("Logistic"):\n'
  '        return')]
# M07
SPECS['form-dict'] = [('mimosa/components/damages/coacch.py',
  '    if "Linear" in value(form):\n'
  '        return a * b1 * x / 100.0\n'
  '\n'
  '    # Quadratic functional form\n'
  '    if "Quadratic" in value(form):\n'
  '        return a * (b1 * x + b2 * x**2) / 100.0\n'
  '\n'
  '    # Logistic functional form\n'
  '    if "Logistic" in value(form):\n'
  '        return',
  '    form_ = value(form)\n'
  '    if form_ == "Robust-Linear":\n'
  '        return a * b1 * x / 100.0\n'
  '\n'
  '    # Quadratic functional form\n'
  '    if form_ in ("Robust-Quadratic", "OLS-Quadratic"):\n'
  '        return a * (b1 * x + b2 * x**2) / 100.0\n'
  '\n'
  '    # Logistic functional form\n'
  '    if form_[4:] == "Logistic":\n'
  '        return')]
# M07
SPECS['form-re'] = [('mimosa/components/damages/coacch.py',
  '    if "Linear" in value(form):\n'
  '        return a * b1 * x / 100.0\n'
  '\n'
  '    # Quadratic functional form\n'
  '    if "Quadratic" in value(form):\n'
  '        return a * (b1 * x + b2 * x**2) / 100.0\n'
  '\n'
  '    # Logistic functional form\n'
  '    if "Logistic" in value(form):\n'
  '        return',
  '    form_ = value(form)\n'
  '    if re.search("Linear", form_):\n'
  '        return a * b1 * x / 100.0\n'
  '\n'
  '    # Quadratic functional form\n'
  '    if re.search("Quadratic", form_):\n'
  '        return a * (b1 * x + b2 * x**2) / 100.0\n'
  '\n'
  '    # Logistic functional form\n'
  '    if re.search("Logistic", form_):\n'
  '        return'),
 ('mimosa/components/damages/coacch.py', 'from typing import Sequence', 'import re\nfrom typing import Sequence')]
# M04
SPECS['eq-m04-budget-int-dt'] = [('mimosa/components/emissions.py',
  'if (m.year(t) >= 2100 and value(m.budget) is not False)',
  'if (t > value(m.year2100) or m.year(t) == 2100) and value(m.budget) is not False')]
# M04
SPECS['eq-m04-year2100-round'] = [('mimosa/components/emissions.py', 'if m.year(t - 1) > 2100\n', 'if t - 1 > m.year2100\n')]
# M14
SPECS['eq-m14-tfp-short-step'] = [('mimosa/common/economics.py', 'return ((1 - dk) ** dt - 1) / dt * K + I', 'return ((1 - dk) ** dt - 1) / dt * K + I if dk else I')]
