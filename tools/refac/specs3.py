"""Third set of edits that change no behaviour"""
SPECS = {}
# M01,M04
SPECS['em-quicksum'] = [
    ('mimosa/components/emissions.py',
     'import numpy as np\n',
     'import numpy as np\nfrom pyomo.environ import quicksum\n'),
    ('mimosa/components/emissions.py',
     '== sum(m.regional_emissions[t, r] for r in m.regions)',
     '== quicksum(m.regional_emissions[t, r] for r in m.regions)'),
]
# M04,M05
SPECS['em-isset'] = [
    ('mimosa/components/emissions.py',
     'def _get_inertia_and_budget_constraints(',
     '_POLICY_YEAR = 2100\n\n\ndef _is_set(param):\n    return value(param) is not False\n\n\ndef _get_inertia_and_budget_constraints('),
    ('mimosa/components/emissions.py',
     'if (m.year(t) >= 2100 and value(m.temperature_target) is not False)',
     'if m.year(t) >= _POLICY_YEAR and _is_set(m.temperature_target)'),
    ('mimosa/components/emissions.py',
     'if (m.year(t) >= 2100 and value(m.budget) is not False)',
     'if m.year(t) >= _POLICY_YEAR and _is_set(m.budget)'),
    ('mimosa/components/emissions.py',
     'if value(m.inertia_regional) is not False and t > 0',
     'if _is_set(m.inertia_regional) and t != 0'),
    ('mimosa/components/emissions.py',
     'if value(m.global_min_level) is not False',
     'if _is_set(m.global_min_level)'),
]
# M05
SPECS['em-table'] = [
    ('mimosa/components/emissions.py',
     '            GlobalConstraint(\n                lambda m, t: (\n                    m.global_emissions[t] >= m.global_min_level\n                    if value(m.global_min_level) is not False\n                    else Constraint.Skip\n                ),\n                "global_min_level",\n            ),\n            RegionalConstraint(\n                lambda m, t, r: (\n                    m.regional_emissions[t, r] >= m.regional_min_level\n                    if value(m.regional_min_level) is not False\n                    else Constraint.Skip\n                ),\n                "regional_min_level",\n            ),',
     "            *[kind(lambda m, *i, v=v, lim=lim: (getattr(m, v)[i] >= getattr(m, lim) if value(getattr(m, lim)) is not False else Constraint.Skip), lim)\n              for kind, v, lim in ((GlobalConstraint, 'global_emissions', 'global_min_level'), (RegionalConstraint, 'regional_emissions', 'regional_min_level'))],"),
]
# M05
SPECS['em-partial'] = [
    ('mimosa/components/emissions.py',
     'import numpy as np\n',
     'from functools import partial\nimport numpy as np\n'),
    ('mimosa/components/emissions.py',
     '            GlobalConstraint(\n                lambda m, t: (\n                    m.global_emissions[t] >= m.global_min_level\n                    if value(m.global_min_level) is not False\n                    else Constraint.Skip\n                ),\n                "global_min_level",\n            ),',
     '            GlobalConstraint(\n                partial(_min_level_rule, "global_emissions", "global_min_level"),\n                "global_min_level",\n            ),'),
    ('mimosa/components/emissions.py',
     'def _get_inertia_and_budget_constraints(',
     'def _min_level_rule(variable, level, m, *index):\n    level = getattr(m, level)\n    if value(level) is False:\n        return Constraint.Skip\n    return getattr(m, variable)[index if len(index) > 1 else index[0]] >= level\n\n\ndef _get_inertia_and_budget_constraints('),
]
# M03,M04
SPECS['em-generator'] = [
    ('mimosa/components/emissions.py',
     '    constraints = (\n        _get_emissions_constraints(m)\n        + _get_temperature_constraints(m)\n        + _get_inertia_and_budget_constraints(m)\n    )\n\n    return constraints',
     '    return [\n        constraint\n        for part in (\n            _get_emissions_constraints,\n            _get_temperature_constraints,\n            _get_inertia_and_budget_constraints,\n        )\n        for constraint in part(m)\n    ]'),
]
# M04,M06
SPECS['em-decorator'] = [
    ('mimosa/components/emissions.py',
     'def get_constraints(m: AbstractModel)',
     'def skip_first(rule):\n    def wrapped(m, t, *args):\n        return rule(m, t, *args) if t > 0 else Constraint.Skip\n\n    return wrapped\n\n\ndef get_constraints(m: AbstractModel)'),
    ('mimosa/components/emissions.py',
     '                lambda m, t: (\n                    m.global_emissions[t]\n                    == sum(m.regional_emissions[t, r] for r in m.regions)\n                    if t > 0\n                    else Constraint.Skip\n                ),',
     '                skip_first(\n                    lambda m, t: m.global_emissions[t]\n                    == sum(m.regional_emissions[t, r] for r in m.regions)\n                ),'),
]
# M02
SPECS['em-accumulate'] = [
    ('mimosa/components/emissions.py',
     '        values_t = range(t + 1)\n        values = [value(m.baseline_emissions[s, r]) for s in values_t]\n        years = value(m.beginyear) + np.array(values_t) * value(m.dt)\n        return np.trapz(values, years)',
     '        total = 0.0\n        for s in range(1, t + 1):\n            total += (\n                value(m.dt)\n                * (\n                    value(m.baseline_emissions[s - 1, r])\n                    + value(m.baseline_emissions[s, r])\n                )\n                / 2\n            )\n        return total'),
]
# M02
SPECS['em-recursive-cum'] = [
    ('mimosa/components/emissions.py',
     '        values_t = range(t + 1)\n        values = [value(m.baseline_emissions[s, r]) for s in values_t]\n        years = value(m.beginyear) + np.array(values_t) * value(m.dt)\n        return np.trapz(values, years)',
     '        if t == 0:\n            return 0.0\n        step = value(m.baseline_emissions[t - 1, r]) + value(m.baseline_emissions[t, r])\n        return value(m.cumulative_baseline_emissions[t - 1, r]) + 0.5 * value(m.dt) * step'),
]
# M08,M10
SPECS['mi-walrus'] = [
    ('mimosa/components/mitigation.py',
     'def MAC(a, m, t, r):\n    factor = m.learning_factor[t] * m.MAC_scaling_factor[r]\n    return factor * m.MAC_gamma * a**m.MAC_beta\n\n\ndef AC(a, m, t, r):\n    factor = m.learning_factor[t] * m.MAC_scaling_factor[r]\n    return factor * m.MAC_gamma * a ** (m.MAC_beta + 1) / (m.MAC_beta + 1)',
     'def _level(m, t, r):\n    return m.learning_factor[t] * m.MAC_scaling_factor[r] * m.MAC_gamma\n\n\ndef MAC(a, m, t, r):\n    return _level(m, t, r) * pow(a, m.MAC_beta)\n\n\ndef AC(a, m, t, r):\n    return _level(m, t, r) * pow(a, exponent := m.MAC_beta + 1) / exponent'),
]
# M10
SPECS['mi-log2'] = [
    ('mimosa/components/mitigation.py',
     'from typing import Sequence\n',
     'from math import log2\nfrom typing import Sequence\n'),
    ('mimosa/components/mitigation.py',
     '    m.log_LBD_rate = Param(initialize=log(m.LBD_rate) / log(2))',
     '    m.log_LBD_rate = Param(initialize=lambda m: log2(m.LBD_rate.value))'),
]
# M10
SPECS['mi-learning-def'] = [
    ('mimosa/components/mitigation.py',
     '                lambda m, t: m.LOT_factor[t] == 1 / (1 + m.LOT_rate) ** t, "LOT"',
     '                lambda m, t: m.LOT_factor[t] == (1 + m.LOT_rate) ** (-t), "LOT"'),
]
# M07
SPECS['co-match'] = [
    ('mimosa/components/damages/coacch.py',
     '    # Linear functional form\n    if "Linear" in value(form):\n        return a * b1 * x / 100.0\n\n    # Quadratic functional form\n    if "Quadratic" in value(form):\n        return a * (b1 * x + b2 * x**2) / 100.0\n\n    # Logistic functional form\n    if "Logistic" in value(form):\n        return a * logistic(x, b1, b2, b3) / 100.0\n\n    raise NotImplementedError',
     '    forms = {\n        "Linear": lambda: b1 * x,\n        "Quadratic": lambda: b1 * x + b2 * x**2,\n        "Logistic": lambda: logistic(x, b1, b2, b3),\n    }\n    for name, calc in forms.items():\n        if name in value(form):\n            return a * calc() / 100.0\n\n    raise NotImplementedError'),
]
# M07
SPECS['co-next'] = [
    ('mimosa/components/damages/coacch.py',
     '    # Linear functional form\n    if "Linear" in value(form):\n        return a * b1 * x / 100.0\n\n    # Quadratic functional form\n    if "Quadratic" in value(form):\n        return a * (b1 * x + b2 * x**2) / 100.0\n\n    # Logistic functional form\n    if "Logistic" in value(form):\n        return a * logistic(x, b1, b2, b3) / 100.0\n\n    raise NotImplementedError',
     '    kind = next((k for k in ("Linear", "Quadratic", "Logistic") if k in value(form)), None)\n    match kind:\n        case "Linear":\n            shape = b1 * x\n        case "Quadratic":\n            shape = x * (b1 + b2 * x)\n        case "Logistic":\n            shape = logistic(x, b1, b2, b3)\n        case _:\n            raise NotImplementedError\n    return a * shape / 100.0'),
]
# M07
SPECS['co-getattr'] = [
    ('mimosa/components/damages/coacch.py',
     '    if is_slr:\n        form = m.damage_slr_form[r]\n        b1, b2, b3 = m.damage_slr_b1[r], m.damage_slr_b2[r], m.damage_slr_b3[r]\n        a = m.damage_slr_a[r]\n    else:\n        form = m.damage_noslr_form[r]\n        b1, b2, b3 = m.damage_noslr_b1[r], m.damage_noslr_b2[r], m.damage_noslr_b3[r]\n        a = m.damage_noslr_a[r]\n',
     '    prefix = "damage_slr" if is_slr else "damage_noslr"\n    form, b1, b2, b3, a = (\n        getattr(m, f"{prefix}_{suffix}")[r] for suffix in ("form", "b1", "b2", "b3", "a")\n    )\n'),
]
# M14
SPECS['cd-gen'] = [
    ('mimosa/components/cobbdouglas.py',
     '            RegionalConstraint(\n                lambda m, t, r: m.investments[t, r] == m.sr * m.GDP_net[t, r],\n                "investments",\n            ),\n            RegionalConstraint(\n                lambda m, t, r: m.consumption[t, r] == (1 - m.sr) * m.GDP_net[t, r],\n                "consumption",\n            ),',
     '            *(\n                RegionalConstraint(rule, name)\n                for name, rule in {\n                    "investments": lambda m, t, r: m.investments[t, r]\n                    == m.sr * m.GDP_net[t, r],\n                    "consumption": lambda m, t, r: m.consumption[t, r]\n                    == (1 - m.sr) * m.GDP_net[t, r],\n                }.items()\n            ),'),
]
# M14
SPECS['cd-prev'] = [
    ('mimosa/components/cobbdouglas.py',
     '                        m.capital_stock[t, r]\n                        == m.capital_stock[t - 1, r]\n                        + m.dt\n                        * economics.calc_dKdt(\n                            m.capital_stock[t, r], m.dk, m.investments[t, r], m.dt\n                        )',
     '                        (m.capital_stock[t, r] - m.capital_stock[m.t.prev(t), r]) / m.dt\n                        == economics.calc_dKdt(\n                            m.capital_stock[t, r], m.dk, m.investments[t, r], m.dt\n                        )'),
]
# M14
SPECS['ec-tfp-iter'] = [
    ('mimosa/common/economics.py',
     '    for s in range(t + 1):\n        if s == 0:\n            # Initial capital stock\n            capital = value(m.init_capitalstock_factor[r] * m.baseline_GDP[0, r])\n        else:\n            # For the subsequent years, calculate the capital stock with the stock growth formula\n            investments = sr * baseline_gdp\n            dKdt = calc_dKdt(capital, dk, investments, dt)\n            capital = dKdt * dt + capital\n        baseline_gdp = value(m.baseline_GDP[s, r])\n',
     '    gdp = [value(m.baseline_GDP[s, r]) for s in range(t + 1)]\n    capital = value(m.init_capitalstock_factor[r]) * gdp[0]\n    for previous_gdp in gdp[:-1]:\n        capital += calc_dKdt(capital, dk, sr * previous_gdp, dt) * dt\n    baseline_gdp = gdp[-1]\n'),
    ('mimosa/common/economics.py',
     'value(m.population[s, r])',
     'value(m.population[t, r])'),
]
# M13
SPECS['es-clip'] = [
    ('mimosa/components/effortsharing.py',
     '    year_linear_part = (year_t - year_0) / (year_conv - year_0)\n\n    return (\n        min(year_linear_part, 1) * m.percapconv_share_pop[t, r]\n        + max(1 - year_linear_part, 0) * m.percapconv_share_init[r]\n    )',
     '    weight = min(1.0, (year_t - year_0) / (year_conv - year_0))\n    init, final = m.percapconv_share_init[r], m.percapconv_share_pop[t, r]\n    return init + weight * (final - init)'),
]
# M13
SPECS['es-factory'] = [
    ('mimosa/components/effortsharing.py',
     '            ignore_if=lambda m, t, r: value(m.effort_sharing_regime)\n            != "equal_mitigation_costs",\n',
     '            ignore_if=_other_regime("equal_mitigation_costs"),\n'),
    ('mimosa/components/effortsharing.py',
     'def _get_equal_mitigation_costs_constraints()',
     'def _other_regime(regime):\n    return lambda m, *_: value(m.effort_sharing_regime) != regime\n\n\ndef _get_equal_mitigation_costs_constraints()'),
]
# M06
SPECS['sl-def'] = [
    ('mimosa/components/sealevelrise.py',
     'def get_constraints(m: AbstractModel)',
     'def _from_second_period(expression):\n    def rule(m, t):\n        if t == 0:\n            return Constraint.Skip\n        return expression(m, t)\n\n    return rule\n\n\ndef get_constraints(m: AbstractModel)'),
]
# M11
SPECS['tr-def'] = [
    ('mimosa/components/emissiontrade/emissiontrade.py',
     '                == sum(m.carbonprice[t, r] * m.population[t, r] for r in m.regions)\n                / sum(m.population[t, r] for r in m.regions),',
     '                == sum(\n                    m.carbonprice[t, r] * (m.population[t, r] / sum(m.population[t, s] for s in m.regions))\n                    for r in m.regions\n                ),'),
]
# M11
SPECS['tr-values'] = [
    ('mimosa/components/emissiontrade/emissiontrade.py',
     '                == sum(m.carbonprice[t, r] * m.population[t, r] for r in m.regions)\n                / sum(m.population[t, r] for r in m.regions),',
     '                == _weighted_mean(\n                    [m.carbonprice[t, r] for r in m.regions],\n                    [m.population[t, r] for r in m.regions],\n                ),'),
    ('mimosa/components/emissiontrade/emissiontrade.py',
     'def get_constraints',
     'def _weighted_mean(values, weights):\n    return sum(v * w for v, w in zip(values, weights)) / sum(weights)\n\n\ndef get_constraints'),
]
# M12
SPECS['ft-tuple'] = [
    ('mimosa/components/financialtransfer/globaldamagepool.py',
     '                lambda m, t, r: m.financial_transfer[t, r]\n                >= -m.damage_costs[t, r] * m.GDP_gross[t, r],',
     '                lambda m, t, r: (\n                    None,\n                    -m.financial_transfer[t, r] - m.damage_costs[t, r] * m.GDP_gross[t, r],\n                    0,\n                ),'),
]
# M12
SPECS['ft-inequality'] = [
    ('mimosa/components/financialtransfer/globaldamagepool.py',
     '                lambda m, t, r: m.financial_transfer[t, r]\n                >= -m.damage_costs[t, r] * m.GDP_gross[t, r],',
     '                lambda m, t, r: 0\n                <= m.financial_transfer[t, r]\n                + m.damage_costs[t, r] * m.GDP_gross[t, r],'),
]
# M15
SPECS['we-map'] = [
    ('mimosa/components/welfare/inequal_aversion_general.py',
     '                    sum(m.utility[t, r] for r in m.regions),\n                    sum(m.population[t, r] for r in m.regions),\n                    m.elasmu,',
     '                    sum(map(lambda r: m.utility[t, r], m.regions)),\n                    total(m.population, t, m.regions),\n                    m.elasmu,'),
    ('mimosa/components/welfare/inequal_aversion_general.py',
     'def calc_regional_utility',
     'def total(component, t, regions):\n    result = 0\n    for region in regions:\n        result = result + component[t, region]\n    return result\n\n\ndef calc_regional_utility'),
]
# M16
SPECS['ob-common'] = [
    ('mimosa/components/objective/utility.py',
     '                    m.NPV[t]\n                    == m.NPV[t - 1]\n                    + m.dt\n                    * exp(-m.PRTP * (m.year(t) - m.beginyear))\n                    * m.yearly_welfare[t]',
     '                    m.NPV[t] - m.NPV[t - 1]\n                    == m.dt * m.yearly_welfare[t] / exp(m.PRTP * (t * m.dt))'),
]
# M16
SPECS['ob-last'] = [
    ('mimosa/components/objective/utility.py',
     'objective = Objective(rule=lambda m: m.NPV[m.tf], sense=maximize)',
     'objective = Objective(rule=lambda m: m.NPV[m.t.last()], sense=maximize)'),
]
# M17
SPECS['pu-isinstance'] = [
    ('mimosa/common/pyomo_utils.py',
     'def atan(x):\n    name = type(x).__name__\n    if name in ["Series", "DataFrame", "float", "int", "ndarray"]:\n        return np.arctan(x)\n\n    return pyomo.environ.atan(x)\n',
     'def atan(x):\n    if isinstance(x, (float, int)) or hasattr(x, "__array__"):\n        return np.arctan(x)\n    return pyomo.environ.atan(x)\n'),
]
# M17,M08
SPECS['pu-soft-forms'] = [
    ('mimosa/common/pyomo_utils.py',
     '    a = scale_to_a(scale)\n    soft_min_value = soft_switch(x, scale) * x + 1 / (a * np.pi)\n    return soft_min_value\n',
     '    return x * soft_switch(x, scale=scale) + scale / (25.0 * np.pi)\n'),
]
# M18
SPECS['am-match'] = [
    ('mimosa/abstract_model.py',
     '    if welfare_module == "welfare_loss_minimising":\n        constraints.extend(welfare.welfare_loss_minimising.get_constraints(m))\n    elif welfare_module == "cost_minimising":\n        constraints.extend(welfare.cost_minimising.get_constraints(m))\n    elif welfare_module == "inequal_aversion_general":\n        constraints.extend(welfare.inequal_aversion_general.get_constraints(m))\n    else:\n        raise NotImplementedError(f"Welfare module `{welfare_module}` not implemented")\n',
     '    match welfare_module:\n        case "welfare_loss_minimising" | "cost_minimising" | "inequal_aversion_general":\n            constraints += getattr(welfare, welfare_module).get_constraints(m)\n        case _:\n            raise NotImplementedError(\n                f"Welfare module `{welfare_module}` not implemented"\n            )\n'),
]
# M18
SPECS['am-chain'] = [
    ('mimosa/abstract_model.py',
     '    for constraint in constraints:\n        add_constraint(m, constraint.to_pyomo_constraint(m), constraint.name)\n',
     '    pyomo_constraints = [\n        (constraint.to_pyomo_constraint(m), constraint.name)\n        for constraint in constraints\n    ]\n    while pyomo_constraints:\n        add_constraint(m, *pyomo_constraints.pop(0))\n'),
]
# C05,C06
SPECS['ip-product'] = [
    ('mimosa/concrete_model/instantiate_params.py',
     'import numpy as np\n',
     'from itertools import product\nimport numpy as np\n'),
    ('mimosa/concrete_model/instantiate_params.py',
     '                parameter_mapping[parameter.name] = {\n                    (t, r): self.data_store.interp_data(\n                        self.abstract_model.year(t), r, var_name\n                    )\n                    for t in range(num_years)\n                    for r in params["regions"].keys()\n                }\n',
     '                parameter_mapping[parameter.name] = {\n                    (t, r): self.data_store.interp_data(t_start + t * dt, r, var_name)\n                    for t, r in product(range(num_years), params["regions"])\n                }\n'),
]
# C05
SPECS['ip-partition'] = [
    ('mimosa/concrete_model/instantiate_params.py',
     '                param_category, param_name = parameter_doc_str.split("::")[1].split(\n                    ".", 1\n                )\n',
     '                param_category, _, param_name = parameter_doc_str.removeprefix(\n                    "regional::"\n                ).partition(".")\n'),
]
# C05
SPECS['ip-prefix'] = [
    ('mimosa/concrete_model/instantiate_params.py',
     '            if parameter_doc_str.startswith("::"):\n                keys = parameter_doc_str.split("::")[1].split(".")\n',
     '            source, separator, location = parameter_doc_str.partition("::")\n            if separator and not source:\n                keys = location.split(".")\n'),
]
# C06,C05
SPECS['ip-ceil'] = [
    ('mimosa/concrete_model/instantiate_params.py',
     'import numpy as np\n',
     'import math\nimport numpy as np\n'),
    ('mimosa/concrete_model/instantiate_params.py',
     '        num_years = int(np.ceil((t_end - t_start) / dt)) + 1\n',
     '        num_years = math.ceil((t_end - t_start) / dt) + 1\n'),
]
# C05
SPECS['ip-doc-helper'] = [
    ('mimosa/concrete_model/instantiate_params.py',
     '            if callable(parameter.doc):\n                parameter_doc_str = parameter.doc(params)\n            else:\n                parameter_doc_str = str(parameter.doc)\n',
     '            doc = parameter.doc\n            parameter_doc_str = doc(params) if callable(doc) else f"{doc}"\n'),
]
# C05
SPECS['ip-coacch-loop'] = [
    ('mimosa/concrete_model/instantiate_params.py',
     '                "damage_noslr_b1": self.regional_param_store.get(\n                    "COACCH", f"combined_b1_{adapt_prfx}-q{damage_quantile}"\n                ),\n                "damage_noslr_b2": self.regional_param_store.get(\n                    "COACCH", f"combined_b2_{adapt_prfx}-q{damage_quantile}"\n                ),\n',
     '                **{\n                    f"damage_noslr_{b}": self.regional_param_store.get(\n                        "COACCH", f"combined_{b}_{adapt_prfx}-q{damage_quantile}"\n                    )\n                    for b in ("b1", "b2")\n                },\n'),
]
# C07
SPECS['ds-reduce'] = [
    ('mimosa/common/data/datastore.py',
     '            selection = database.loc[\n                (database["model"] == model)\n                & (database["scenario"] == scenario)\n                & (database["region"] == (region[:-1] if region[-1] == "#" else region))\n                & (database["variable"] == variablename)\n            ]\n',
     '            wanted = {\n                "model": model,\n                "scenario": scenario,\n                "region": region[:-1] if region.endswith("#") else region,\n                "variable": variablename,\n            }\n            selection = database\n            for column, entry in wanted.items():\n                selection = selection[selection[column] == entry]\n'),
]
# C07
SPECS['ds-try'] = [
    ('mimosa/common/data/datastore.py',
     '        if key not in self.cached_data[filename]:\n            database',
     '        try:\n            return self.cached_data[filename][key]\n        except KeyError:\n            database'),
]
# C07
SPECS['ds-instance'] = [
    ('mimosa/common/data/datastore.py',
     '            self.cached_data[filename] = {}',
     '            DataStore.cached_data[filename] = dict()'),
]
# C07
SPECS['ds-mask'] = [
    ('mimosa/common/data/datastore.py',
     '            self.cached_data[filename][key] = {\n                "years": selection.loc[:, "2010":].columns.values.astype(float),\n                "values": selection.loc[:, "2010":].values[0],\n                "unit": selection.iloc[0]["unit"],\n            }\n',
     '            row = selection.iloc[0]\n            series = selection.loc[:, "2010":]\n            self.cached_data[filename][key] = dict(\n                years=series.columns.values.astype(float),\n                values=series.values[0],\n                unit=row["unit"],\n            )\n'),
]
# C07,S01
SPECS['du-enumerate'] = [
    ('mimosa/common/data/utils.py',
     '    for t in extra_years:\n        change = minmax(\n            0.0, change_rate - change_rate * (t_prev - 2100.0) / stabilising_years\n        )\n        val = val_prev + change * (t - t_prev)\n',
     '    for t in extra_years:\n        fraction_left = max(0.0, 1 - (t_prev - 2100.0) / stabilising_years)\n        val = val_prev + change_rate * fraction_left * (t - t_prev)\n'),
]
# C08,C05
SPECS['rm-chain'] = [
    ('mimosa/common/regional_params/main.py',
     '        try:\n            value = self.params["regions"][region][category][paramname]\n        except (KeyError, TypeError):\n            value = self.categories[category].get(paramname, region)\n\n        return value\n',
     '        region_params = self.params["regions"][region] if region in self.params["regions"] else None\n        try:\n            return region_params[category][paramname]\n        except (KeyError, TypeError):\n            pass\n        return self.categories[category].get(paramname, region)\n'),
]
# C08
SPECS['rm-loop'] = [
    ('mimosa/common/regional_params/main.py',
     '        self.categories = {}\n        for category, category_info in params["regional_parameter_files"].items():\n            self.categories[category] = RegionalParamContainer(\n                category_info["filename"],\n                category_info["regionstype"],\n                regiontype_output,\n                self.region_mappers,\n            )\n',
     '        self.categories = {\n            category: RegionalParamContainer(\n                info["filename"],\n                info["regionstype"],\n                regiontype_output,\n                self.region_mappers,\n            )\n            for category, info in params["regional_parameter_files"].items()\n        }\n'),
]
# C08
SPECS['rm-pairs'] = [
    ('mimosa/common/regional_params/main.py',
     '            region_mappers[(regionstype1, regionstype2)] = mapper\n            region_mappers[(regionstype2, regionstype1)] = mapper\n',
     '            for pair in ((regionstype1, regionstype2), (regionstype2, regionstype1)):\n                region_mappers[pair] = mapper\n'),
]
# C08
SPECS['rc-else'] = [
    ('mimosa/common/regional_params/regional_param_container.py',
     '        if regiontype_input == regiontype_output:\n            self.data = data_raw.set_index("region")\n        else:\n            # Transform the input regional definition to required output regional definitions\n            try:\n                region_mapper = region_mappers[(regiontype_input, regiontype_output)]\n            except KeyError as exc:\n                raise KeyError(\n                    f"Region mapper missing between {regiontype_input} and {regiontype_output}"\n                ) from exc\n\n            self.data = region_mapper.map_regions(\n                data_raw, regiontype_input, regiontype_output\n            ).set_index("region")\n',
     '        if regiontype_input != regiontype_output:\n            # Transform the input regional definition to required output regional definitions\n            key = (regiontype_input, regiontype_output)\n            if key not in region_mappers:\n                raise KeyError(\n                    f"Region mapper missing between {regiontype_input} and {regiontype_output}"\n                )\n            data_raw = region_mappers[key].map_regions(\n                data_raw, regiontype_input, regiontype_output\n            )\n        self.data = data_raw.set_index("region")\n'),
]
# C02
SPECS['pc-comprehension'] = [
    ('mimosa/common/config/parseconfig.py',
     '    num_obsolete = 0\n    for key in set(keys_user) - set(keys_parsed):\n        num_obsolete += 1\n        print(f"Obsolete key: {\' - \'.join(map(str, key))}")\n    if num_obsolete > 0:\n        raise',
     '    obsolete = keys_user.difference(keys_parsed)\n    for key in obsolete:\n        print("Obsolete key:", " - ".join(str(part) for part in key))\n    if len(obsolete):\n        raise'),
]
# C01,C02,C03
SPECS['pc-recursion'] = [
    ('mimosa/common/config/parseconfig.py',
     '    def _do_recursive_traverse(curr_keys, subset):\n        for key, node in subset.items():\n            keys = list(curr_keys) + [key]\n            if leaf_criterium(node):\n                leaf_function(keys, node)\n            else:\n                _do_recursive_traverse(keys, node)\n',
     '    def _do_recursive_traverse(curr_keys, subset):\n        for key in subset:\n            node = subset[key]\n            keys = [*curr_keys, key]\n            if not leaf_criterium(node):\n                _do_recursive_traverse(keys, node)\n                continue\n            leaf_function(keys, node)\n'),
]
# C01,C02,C03
SPECS['nd-reduce'] = [
    ('mimosa/common/config/utils/nested_dict.py',
     'def get_nested(dictionary, keys, create=False):\n    for key in keys:\n        if key not in dictionary and create:\n            dictionary[key] = {}\n        dictionary = dictionary[key]\n    return dictionary\n',
     'def get_nested(dictionary, keys, create=False):\n    nested = dictionary\n    for key in keys:\n        nested = nested.setdefault(key, {}) if create else nested[key]\n    return nested\n'),
]
# C01
SPECS['pa-else'] = [
    ('mimosa/common/config/utils/parsers.py',
     '        if self.is_truthy(value):\n            parsed_value = True\n        elif self.is_falsy(value):\n            parsed_value = False\n        else:\n            self.error(f"Value {value} can not be parsed to a valid boolean")\n        return parsed_value\n',
     '        truthy = self.is_truthy(value)\n        if not truthy and not self.is_falsy(value):\n            self.error(f"Value {value} can not be parsed to a valid boolean")\n        return truthy\n'),
]
# C01
SPECS['pa-sets'] = [
    ('mimosa/common/config/utils/parsers.py',
     '        return value in [0, False, "False", "false", "no"]',
     '        return any(value == option for option in (False, "False", "false", "no"))'),
]
# C01
SPECS['pa-map'] = [
    ('mimosa/common/config/utils/parsers.py',
     '            parsed_list = [\n                self.parse_if_not_none(self.values_parser, list_value)\n                for list_value in value\n            ]\n            return parsed_list\n',
     '            parsed_list = []\n            for list_value in value:\n                parsed_list.append(\n                    self.parse_if_not_none(self.values_parser, list_value)\n                )\n            return parsed_list\n'),
]
# S02,S04
SPECS['mm-model'] = [
    ('mimosa/mimosa.py',
     '        damage_module = self.params["model"]["damage module"]\n        emissiontrade_module = self.params["model"]["emissiontrade module"]\n        financialtransfer_module = self.params["model"]["financialtransfer module"]\n        welfare_module = self.params["model"]["welfare module"]\n        objective_module = self.params["model"]["objective module"]\n\n        return create_abstract_model(\n            damage_module,\n            emissiontrade_module,\n            financialtransfer_module,\n            welfare_module,\n            objective_module,\n        )\n',
     '        kinds = ("damage", "emissiontrade", "financialtransfer", "welfare", "objective")\n        return create_abstract_model(\n            **{f"{kind}_module": self.params["model"][f"{kind} module"] for kind in kinds}\n        )\n'),
]
# S02
SPECS['mm-raise'] = [
    ('mimosa/mimosa.py',
     '        if results.solver.status != SolverStatus.ok:\n            if results.solver.status == SolverStatus.warning:\n                warning_message = "MIMOSA did not solve succesfully. Status: {}, termination condition: {}".format(\n                    results.solver.status, results.solver.termination_condition\n                )\n                logger.error(warning_message)\n                raise SolverException(warning_message, utils.MimosaSolverWarning)\n            if results.solver.status != SolverStatus.warning:\n                raise SolverException(\n                    f"Solver did not exit with status OK: {results.solver.status}"\n                )\n\n',
     '        self._check_status(results.solver)\n\n'),
    ('mimosa/mimosa.py',
     '    def save(self, filename=None',
     '    @staticmethod\n    def _check_status(solver):\n        if solver.status == SolverStatus.ok:\n            return\n        if solver.status != SolverStatus.warning:\n            raise SolverException(\n                f"Solver did not exit with status OK: {solver.status}"\n            )\n        warning_message = f"MIMOSA did not solve succesfully. Status: {solver.status}, termination condition: {solver.termination_condition}"\n        logger.error(warning_message)\n        raise SolverException(warning_message, utils.MimosaSolverWarning)\n\n    def save(self, filename=None'),
]
# S02
SPECS['mm-finally'] = [
    ('mimosa/mimosa.py',
     '        self.postprocessing()\n\n        logger.info("Status: {}".format(results.solver.status))\n\n        self.status = results.solver.status\n',
     '        status = results.solver.status\n        self.status = status\n        self.postprocessing()\n        logger.info("Status: {}".format(status))\n'),
]
# S03
SPECS['sv-path'] = [
    ('mimosa/export/save.py',
     '    os.makedirs(folder + "/", exist_ok=True)\n    filename = f"{experiment}_{settings_hash}" if hash_suffix else experiment\n\n    path = f"{folder}/{filename}.csv"\n',
     '    os.makedirs(folder, exist_ok=True)\n    filename = experiment\n    if hash_suffix:\n        filename = "{}_{}".format(experiment, settings_hash)\n\n    path = os.path.join(folder, "{}.csv".format(filename))\n'),
]
# S03
SPECS['sv-return'] = [
    ('mimosa/export/save.py',
     '    if is_regional:\n        for r in m.regions:\n            rows.append([name, r, unit] + [value(var[t, r]) for t in m.t])\n    else:\n        rows.append([name, "Global", unit] + [value(var[t]) for t in m.t])\n',
     '    labels = m.regions if is_regional else ["Global"]\n    for label in labels:\n        row = [name, label, unit]\n        for t in m.t:\n            row.append(value(var[t, label] if is_regional else var[t]))\n        rows.append(row)\n'),
]
# S03
SPECS['sv-extend'] = [
    ('mimosa/export/save.py',
     '    if is_regional:\n        for r in m.regions:\n            rows.append([name, r, unit] + [value(var[t, r]) for t in m.t])\n    else:\n        rows.append([name, "Global", unit] + [value(var[t]) for t in m.t])\n',
     '    if is_regional:\n        rows.extend([name, r, unit, *(value(var[t, r]) for t in m.t)] for r in m.regions)\n    else:\n        rows += [[name, "Global", unit, *[value(var[t]) for t in m.t]]]\n'),
]
# S01
SPECS['sc-pair'] = [
    ('mimosa/concrete_model/simulation_mode/set_constraints.py',
     '    if has_time_and_region_dim(getattr(m, variable_name)):\n        extra_constraints = _extra_regional_constraint(variable_name, interp_data, eps)\n    else:\n        extra_constraints = _extra_global_constraint(variable_name, interp_data, eps)\n\n    return extra_constraints\n',
     '    is_regional = has_time_and_region_dim(getattr(m, variable_name))\n    make = _extra_regional_constraint if is_regional else _extra_global_constraint\n    return make(variable_name, interp_data, eps)\n'),
]
# S01
SPECS['sc-abs'] = [
    ('mimosa/concrete_model/simulation_mode/set_constraints.py',
     '        RegionalConstraint(\n            lambda m, t, r: getattr(m, variable_name)[t, r]\n            - interp_data.get(r, m.year(t))\n            <= eps\n            # if m.year(t) <= interp_data.maxyear\n            # else Constraint.Skip\n        ),\n        RegionalConstraint(\n            lambda m, t, r: getattr(m, variable_name)[t, r]\n            - interp_data.get(r, m.year(t))\n            >= -eps\n            # if m.year(t) <= interp_data.maxyear\n            # else Constraint.Skip\n        ),\n    ]\n',
     '        RegionalConstraint(\n            lambda m, t, r: (\n                -eps,\n                getattr(m, variable_name)[t, r] - interp_data.get(r, m.year(t)),\n                eps,\n            )\n        ),\n    ]\n'),
]
# S01
SPECS['sc-loc'] = [
    ('mimosa/concrete_model/simulation_mode/set_constraints.py',
     '    fixed_data = imported_data[imported_data["Variable"] == variable_name]\n    fixed_data = fixed_data.drop(\n        columns=["Variable", "Unit"], errors="ignore"\n    ).set_index("Region")\n    interp_data = InterpolatingData(fixed_data)\n    return interp_data\n',
     '    is_variable = imported_data["Variable"] == variable_name\n    fixed_data = imported_data.loc[is_variable].set_index("Region")\n    fixed_data = fixed_data.drop(columns=["Variable", "Unit"], errors="ignore")\n    return InterpolatingData(fixed_data)\n'),
]
# S01
SPECS['su-dict'] = [
    ('mimosa/concrete_model/simulation_mode/utils.py',
     '        self.region_interp_fct = {\n            region: self.interp(row) for region, row in data.iterrows()\n        }\n',
     '        self.region_interp_fct = {}\n        for region, row in data.iterrows():\n            self.region_interp_fct[region] = InterpolatingData.interp(row)\n'),
]
