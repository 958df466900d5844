"""Edits that change no behaviour (second batch: equations, model, export)."""
X = "mimosa/components/"
PU = "mimosa/common/pyomo_utils.py"
EC = "mimosa/common/economics.py"
UT = "mimosa/common/utils.py"
AM = "mimosa/abstract_model.py"
MM = "mimosa/mimosa.py"
SV = "mimosa/export/save.py"
EM = X + "emissions.py"
MI = X + "mitigation.py"
SL = X + "sealevelrise.py"
CO = X + "damages/coacch.py"
CD = X + "cobbdouglas.py"
ES = X + "effortsharing.py"
ET = X + "emissiontrade/"
FT = X + "financialtransfer/"
WE = X + "welfare/"
OB = X + "objective/"

SPECS = {}

SPECS["pu-dispatch"] = [(PU, '''def atan(x):
    name = type(x).__name__
    if name in ["Series", "DataFrame", "float", "int", "ndarray"]:
        return np.arctan(x)

    return pyomo.environ.atan(x)


def exp(x):
    name = type(x).__name__
    if name in ["Series", "DataFrame", "float", "int", "ndarray"]:
        return np.exp(x)

    return pyomo.environ.exp(x)
''', '''NUMERIC_TYPES = ("Series", "DataFrame", "float", "int", "ndarray")


def _is_numeric(x):
    return type(x).__name__ in NUMERIC_TYPES


def atan(x):
    return np.arctan(x) if _is_numeric(x) else pyomo.environ.atan(x)


def exp(x):
    return np.exp(x) if _is_numeric(x) else pyomo.environ.exp(x)
''')]

SPECS["pu-soft"] = [(PU, '''    a = scale_to_a(scale)
    soft_min_value = soft_switch(x, scale) * x + 1 / (a * np.pi)
    return soft_min_value
''', '''    offset = 1 / (np.pi * scale_to_a(scale))
    return x * soft_switch(x, scale) + offset
'''), (PU, '''    return -soft_min(maxval - x, scale) + maxval
''', '''    return maxval - soft_min(maxval - x, scale)
'''), (PU, '''    a = scale_to_a(scale)
    return atan(a * x) / np.pi + 0.5
''', '''    return 0.5 + atan(scale_to_a(scale) * x) / np.pi
''')]

SPECS["pu-softequality"] = [(PU, '''        eps = self.epsilon
        rule_lhs = self.rule
        rule_rhs = self.rule_rhs

        upperbound = lambda m, t, r: (
            rule_lhs(m, t, r) <= self.rhs_eps(rule_rhs, True, m, t, r)
            if not self.ignore_if(m, t, r)
            else Constraint.Skip
        )
        lowerbound = lambda m, t, r: (
            rule_lhs(m, t, r) >= self.rhs_eps(rule_rhs, False, m, t, r)
            if not self.ignore_if(m, t, r)
            else Constraint.Skip
        )
        return [
            Constraint(m.t, m.regions, rule=upperbound),
            Constraint(m.t, m.regions, rule=lowerbound),
        ]
''', '''        def upperbound(*index):
            if self.ignore_if(*index):
                return Constraint.Skip
            return self.rule(*index) <= self.rhs_eps(self.rule_rhs, True, *index)

        def lowerbound(*index):
            if self.ignore_if(*index):
                return Constraint.Skip
            return self.rule(*index) >= self.rhs_eps(self.rule_rhs, False, *index)

        def _constraint(rule):
            return Constraint(
                m.t, m.regions, rule=lambda m, t, r: rule(m, t, r)
            )

        return [_constraint(upperbound), _constraint(lowerbound)]
'''), (PU, '''        factor = 1 if is_upper else -1
        if self.absolute_epsilon is not None:
            return rule_rhs(*args) + factor * self.absolute_epsilon
        return (1 + factor * self.epsilon) * rule_rhs(*args)
''', '''        rhs = rule_rhs(*args)
        sign = +1 if is_upper else -1
        if self.absolute_epsilon is None:
            return (1 + sign * self.epsilon) * rhs
        return rhs + sign * self.absolute_epsilon
''')]

SPECS["pu-add-constraint"] = [(PU, '''    name = None
    for constraint, name in zip(constraints, names):
        n = len(list(m.component_objects()))
        name = f"constraint_{n}" if name is None else f"constraint_{name}"
        m.add_component(name, constraint)
    return name
''', '''    name = None
    for constraint, suffix in zip(constraints, names):
        if suffix is None:
            suffix = sum(1 for _ in m.component_objects())
        name = f"constraint_{suffix}"
        m.add_component(name, constraint)
    return name
''')]

SPECS["pu-allvars"] = [(PU, '''    return [
        UsefulVar(m, var.name)
        for var in m.component_objects(Var)
        if not var.name.startswith("_")
    ]
''', '''    variables = []
    for var in m.component_objects(Var):
        if var.name.startswith("_"):
            continue
        variables.append(UsefulVar(m, var.name))
    return variables
'''), (PU, '''    pyomo_unit = units.get_units(var)
    pyomo_unit_str = str(pyomo_unit) if pyomo_unit is not None else ""
''', '''    pyomo_unit = units.get_units(var)
    if pyomo_unit is None:
        return ""
    pyomo_unit_str = str(pyomo_unit)
'''), (PU, '''        self.m = m
        self.var = getattr(m, name)

        self.name = name
        self.is_regional = has_time_and_region_dim(self.var)
        self.unit = get_unit(self.var)
        self.indices = get_indices(self.var)
''', '''        self.m = m
        self.name = name

        var = getattr(m, name)
        self.var = var
        self.unit = get_unit(var)
        self.is_regional = has_time_and_region_dim(var)
        self.indices = get_indices(var)
''')]

SPECS["ec-tfp-loop"] = [(EC, '''    # Calculate the capital stock at time t
    for s in range(t + 1):
        if s == 0:
            # Initial capital stock
            capital = value(m.init_capitalstock_factor[r] * m.baseline_GDP[0, r])
        else:
            # For the subsequent years, calculate the capital stock with the stock growth formula
            investments = sr * baseline_gdp
            dKdt = calc_dKdt(capital, dk, investments, dt)
            capital = dKdt * dt + capital
        baseline_gdp = value(m.baseline_GDP[s, r])

    # Calculate the TFP using the Cobb-Douglas equation
    population = value(m.population[s, r])
    tfp = baseline_gdp / calc_GDP(1, population, capital, alpha)

    return tfp
''', '''    # Initial capital stock
    baseline_gdp = value(m.baseline_GDP[0, r])
    capital = value(m.init_capitalstock_factor[r]) * baseline_gdp

    # Calculate the capital stock at time t with the stock growth formula
    for s in range(1, t + 1):
        capital += dt * calc_dKdt(capital, dk, sr * baseline_gdp, dt)
        baseline_gdp = value(m.baseline_GDP[s, r])

    # Calculate the TFP using the Cobb-Douglas equation
    return baseline_gdp / calc_GDP(1, value(m.population[t, r]), capital, alpha)
''')]

SPECS["ec-forms"] = [(EC, '''    return ((1 - dk) ** dt - 1) / dt * K + I
''', '''    depreciation = (1 - dk) ** dt - 1
    return K * depreciation / dt + I
'''), (EC, '''    return TFP * L ** (1 - alpha) * K**alpha
''', '''    labour_share = 1 - alpha
    return TFP * K**alpha * L**labour_share
''')]

SPECS["am-dict"] = [(AM, '''    if damage_module == "COACCH":
        constraints.extend(damages.coacch.get_constraints(m))
    elif damage_module == "nodamage":
        constraints.extend(damages.nodamage.get_constraints(m))
    else:
        raise NotImplementedError
''', '''    damage_modules = {"COACCH": damages.coacch, "nodamage": damages.nodamage}
    if damage_module not in damage_modules:
        raise NotImplementedError
    constraints.extend(damage_modules[damage_module].get_constraints(m))
'''), (AM, '''    if welfare_module == "welfare_loss_minimising":
        constraints.extend(welfare.welfare_loss_minimising.get_constraints(m))
    elif welfare_module == "cost_minimising":
        constraints.extend(welfare.cost_minimising.get_constraints(m))
    elif welfare_module == "inequal_aversion_general":
        constraints.extend(welfare.inequal_aversion_general.get_constraints(m))
    else:
        raise NotImplementedError(f"Welfare module `{welfare_module}` not implemented")
''', '''    try:
        welfare_get_constraints = {
            "welfare_loss_minimising": welfare.welfare_loss_minimising.get_constraints,
            "cost_minimising": welfare.cost_minimising.get_constraints,
            "inequal_aversion_general": welfare.inequal_aversion_general.get_constraints,
        }[welfare_module]
    except KeyError as exc:
        raise NotImplementedError(
            f"Welfare module `{welfare_module}` not implemented"
        ) from exc
    constraints += welfare_get_constraints(m)
'''), (AM, '''    if objective_module == "utility":
        objective_rule, objective_constraints = objective.utility.get_constraints(m)
    elif objective_module == "globalcosts":
        objective_rule, objective_constraints = objective.globalcosts.get_constraints(m)
    else:
        raise NotImplementedError
''', '''    if objective_module == "utility":
        module = objective.utility
    elif objective_module == "globalcosts":
        module = objective.globalcosts
    else:
        raise NotImplementedError
    objective_rule, objective_constraints = module.get_constraints(m)
''')]

SPECS["am-helpers"] = [(AM, '''    # Emission trading
    if emissiontrade_module == "notrade":
        constraints.extend(emissiontrade.notrade.get_constraints(m))
    elif emissiontrade_module == "globalcostpool":
        constraints.extend(emissiontrade.globalcostpool.get_constraints(m))
    elif emissiontrade_module == "emissiontrade":
        constraints.extend(emissiontrade.emissiontrade.get_constraints(m))
    else:
        raise NotImplementedError(
            f"Emission trading module `{emissiontrade_module}` not implemented"
        )
''', '''    # Emission trading
    constraints.extend(_emissiontrade_constraints(m, emissiontrade_module))
'''), (AM, '''    ######################
    # Create data params for baseline values
    ######################

    m.population = Param(
        m.t,
        m.regions,
        doc="timeandregional::population",
        units=quant.unit("billion people"),
    )
    m.baseline_GDP = Param(
        m.t,
        m.regions,
        doc="timeandregional::GDP",
        units=quant.unit("currency_unit"),
    )
    m.baseline_emissions = Param(
        m.t,
        m.regions,
        doc="timeandregional::emissions",
        units=quant.unit("emissionsrate_unit"),
    )
''', '''    _add_baseline_params(m)
'''), (AM, '''######################
# Create model
######################

''', '''def _add_baseline_params(m: AbstractModel) -> None:
    """Create data params for baseline values"""
    for name, variable, unit in [
        ("population", "population", "billion people"),
        ("baseline_GDP", "GDP", "currency_unit"),
        ("baseline_emissions", "emissions", "emissionsrate_unit"),
    ]:
        param = Param(
            m.t,
            m.regions,
            doc=f"timeandregional::{variable}",
            units=quant.unit(unit),
        )
        setattr(m, name, param)


def _emissiontrade_constraints(m: AbstractModel, emissiontrade_module: str):
    if emissiontrade_module == "notrade":
        return emissiontrade.notrade.get_constraints(m)
    if emissiontrade_module == "globalcostpool":
        return emissiontrade.globalcostpool.get_constraints(m)
    if emissiontrade_module == "emissiontrade":
        return emissiontrade.emissiontrade.get_constraints(m)
    raise NotImplementedError(
        f"Emission trading module `{emissiontrade_module}` not implemented"
    )


######################
# Create model
######################

''')]

SPECS["mm-kwargs"] = [(MM, '''        damage_module = self.params["model"]["damage module"]
        emissiontrade_module = self.params["model"]["emissiontrade module"]
        financialtransfer_module = self.params["model"]["financialtransfer module"]
        welfare_module = self.params["model"]["welfare module"]
        objective_module = self.params["model"]["objective module"]

        return create_abstract_model(
            damage_module,
            emissiontrade_module,
            financialtransfer_module,
            welfare_module,
            objective_module,
        )
''', '''        modules = self.params["model"]

        return create_abstract_model(
            damage_module=modules["damage module"],
            emissiontrade_module=modules["emissiontrade module"],
            financialtransfer_module=modules["financialtransfer module"],
            welfare_module=modules["welfare module"],
            objective_module=modules["objective module"],
        )
'''), (MM, '''        if (
            self.params.get("simulation") is not None
            and self.params["simulation"]["simulationmode"]
        ):
            simulation_mode.set_simulation_mode(m, self.params)

        return m
''', '''        simulation_params = self.params.get("simulation")
        if simulation_params is not None and simulation_params["simulationmode"]:
            simulation_mode.set_simulation_mode(m, self.params)

        return m
''')]

SPECS["mm-preprocessing"] = [(MM, '''        if len(self.regions) > 1:
            TransformationFactory("contrib.aggregate_vars").apply_to(
                self.concrete_model
            )
        TransformationFactory("contrib.init_vars_midpoint").apply_to(
            self.concrete_model
        )
        TransformationFactory("contrib.detect_fixed_vars").apply_to(self.concrete_model)
        if len(self.regions) > 1:
            TransformationFactory("contrib.propagate_fixed_vars").apply_to(
                self.concrete_model
            )
''', '''        multiple_regions = len(self.regions) > 1

        transformations = ["contrib.init_vars_midpoint", "contrib.detect_fixed_vars"]
        if multiple_regions:
            transformations.insert(0, "contrib.aggregate_vars")
            transformations.append("contrib.propagate_fixed_vars")

        for transformation in transformations:
            TransformationFactory(transformation).apply_to(self.concrete_model)
''')]

SPECS["mm-solve"] = [(MM, '''        self.postprocessing()

        logger.info("Status: {}".format(results.solver.status))

        self.status = results.solver.status

        if results.solver.status != SolverStatus.ok:
            if results.solver.status == SolverStatus.warning:
                warning_message = "MIMOSA did not solve succesfully. Status: {}, termination condition: {}".format(
                    results.solver.status, results.solver.termination_condition
                )
                logger.error(warning_message)
                raise SolverException(warning_message, utils.MimosaSolverWarning)
            if results.solver.status != SolverStatus.warning:
                raise SolverException(
                    f"Solver did not exit with status OK: {results.solver.status}"
                )
''', '''        self.postprocessing()

        status = results.solver.status
        self.status = status
        logger.info(f"Status: {status}")

        if status == SolverStatus.warning:
            warning_message = (
                f"MIMOSA did not solve succesfully. Status: {status}, "
                f"termination condition: {results.solver.termination_condition}"
            )
            logger.error(warning_message)
            raise SolverException(warning_message, utils.MimosaSolverWarning)
        if status != SolverStatus.ok:
            raise SolverException(f"Solver did not exit with status OK: {status}")
'''), (MM, '''            opt: OptSolver = SolverFactory("ipopt")
            opt.options["halt_on_ampl_error"] = halt_on_ampl_error
            if ipopt_maxiter is not None:
                opt.options["max_iter"] = ipopt_maxiter
            if ipopt_output_file is not None:
                opt.options["output_file"] = ipopt_output_file
            results = opt.solve(
''', '''            opt: OptSolver = SolverFactory("ipopt")
            options = {
                "halt_on_ampl_error": halt_on_ampl_error,
                "max_iter": ipopt_maxiter,
                "output_file": ipopt_output_file,
            }
            for option, setting in options.items():
                if setting is not None:
                    opt.options[option] = setting
            results = opt.solve(
''')]

SPECS["sv-rows"] = [(SV, '''    rows = []
    for useful_var in all_variables:
        var_to_row(rows, m, useful_var.var, useful_var.is_regional, useful_var.unit)
    dataframe = rows_to_dataframe(rows, m)
''', '''    dataframe = _create_dataframe(all_variables, m)
'''), (SV, '''def var_to_row(rows, m, var, is_regional, unit):
''', '''def _create_dataframe(all_variables, m):
    rows = []
    for useful_var in all_variables:
        var_to_row(rows, m, useful_var.var, useful_var.is_regional, useful_var.unit)
    return rows_to_dataframe(rows, m)


def var_to_row(rows, m, var, is_regional, unit):
'''), (SV, '''    if is_regional:
        for r in m.regions:
            rows.append([name, r, unit] + [value(var[t, r]) for t in m.t])
    else:
        rows.append([name, "Global", unit] + [value(var[t]) for t in m.t])
''', '''    if not is_regional:
        rows.append([name, "Global", unit, *(value(var[t]) for t in m.t)])
        return
    for r in m.regions:
        values = [value(var[t, r]) for t in m.t]
        rows.append([name, r, unit, *values])
'''), (SV, '''    years = ["{:g}".format(year) for year in m.year(np.array(m.t))]
    columns = ["Variable", "Region", "Unit"] + years
    return pd.DataFrame(rows, columns=columns)
''', '''    years = [f"{m.year(t):g}" for t in m.t]
    return pd.DataFrame(rows, columns=["Variable", "Region", "Unit", *years])
''')]

SPECS["sv-paths"] = [(SV, '''    if hash_suffix:
        settings_hash = hashlib.md5(json.dumps(params).encode()).hexdigest()[:9]
    else:
        settings_hash = ""
''', '''    params_json = json.dumps(params)
    filename = experiment
    if hash_suffix:
        settings_hash = hashlib.md5(params_json.encode()).hexdigest()[:9]
        filename = f"{experiment}_{settings_hash}"
'''), (SV, '''    os.makedirs(folder + "/", exist_ok=True)
    filename = f"{experiment}_{settings_hash}" if hash_suffix else experiment

    path = f"{folder}/{filename}.csv"
    dataframe.to_csv(path, float_format="%.6g", index=False)
    print(f"Saved to {path}")

    # 3. Save the param file
    with open(f"{path}.params.json", "w") as fh:
        json.dump(params, fh)
''', '''    os.makedirs(folder, exist_ok=True)
    path = f"{folder}/{filename}.csv"
    dataframe.to_csv(path, index=False, float_format="%.6g")
    print("Saved to {}".format(path))

    # 3. Save the param file
    params_path = path + ".params.json"
    with open(params_path, mode="w") as params_file:
        params_file.write(params_json)
''')]

SPECS["em-named-rules"] = [(EM, '''            GlobalConstraint(
                lambda m, t: (
                    m.cumulative_emissions[t]
                    == m.cumulative_emissions[t - 1]
                    + (
                        (m.dt * (m.global_emissions[t] + m.global_emissions[t - 1]) / 2)
                        if value(m.cumulative_emissions_trapz)
                        else (m.dt * m.global_emissions[t])
                    )
                    if t > 0
                    else Constraint.Skip
                ),
                "cumulative_emissions",
            ),
''', '''            GlobalConstraint(_cumulative_emissions_rule, "cumulative_emissions"),
'''), (EM, '''def _get_temperature_constraints(m: AbstractModel)''', '''def _cumulative_emissions_rule(m, t):
    if t == 0:
        return Constraint.Skip
    if value(m.cumulative_emissions_trapz):
        mean_emissions = 0.5 * (m.global_emissions[t - 1] + m.global_emissions[t])
    else:
        mean_emissions = m.global_emissions[t]
    return (
        m.cumulative_emissions[t] - m.cumulative_emissions[t - 1]
        == m.dt * mean_emissions
    )


def _get_temperature_constraints(m: AbstractModel)'''), (EM, '''            RegionalConstraint(
                lambda m, t, r: (
                    (
                        m.baseline[t, r]
                        == m.baseline_carbon_intensity[t, r] * m.GDP_net[t, r]
                    )
                    if value(m.use_carbon_intensity_for_baseline)
                    else (m.baseline[t, r] == m.baseline_emissions[t, r])
                ),
                name="baseline_emissions",
            ),
''', '''            RegionalConstraint(
                lambda m, t, r: m.baseline[t, r]
                == (
                    m.GDP_net[t, r] * m.baseline_carbon_intensity[t, r]
                    if value(m.use_carbon_intensity_for_baseline)
                    else m.baseline_emissions[t, r]
                ),
                name="baseline_emissions",
            ),
''')]

SPECS["em-cum-loop"] = [(EM, '''        values_t = range(t + 1)
        values = [value(m.baseline_emissions[s, r]) for s in values_t]
        years = value(m.beginyear) + np.array(values_t) * value(m.dt)
        return np.trapz(values, years)
''', '''        total = 0.0
        for s in range(1, t + 1):
            previous = value(m.baseline_emissions[s - 1, r])
            current = value(m.baseline_emissions[s, r])
            total += (previous + current) / 2 * value(m.dt)
        return total
'''), (EM, '''        initialize=lambda m, t: sum(
            value(m.cumulative_baseline_emissions[t, r]) for r in m.regions
        ),
''', '''        initialize=lambda m, t: value(
            sum(m.cumulative_baseline_emissions[t, r] for r in m.regions)
        ),
''')]

SPECS["em-trapz-dx"] = [(EM, '''        years = value(m.beginyear) + np.array(values_t) * value(m.dt)
        return np.trapz(values, years)
''', '''        return np.trapz(values, dx=value(m.dt))
''')]

SPECS["em-budget"] = [(EM, '''                lambda m, t: (
                    m.cumulative_emissions[t]
                    - (
                        m.budget
                        + (
                            m.overshoot[t] * (1 - m.perc_reversible_damages)
                            if value(m.perc_reversible_damages) < 1
                            else 0
                        )
                    )
                    <= 0
                    if (m.year(t) >= 2100 and value(m.budget) is not False)
                    else Constraint.Skip
                ),
                name="carbon_budget",
''', '''                _carbon_budget_rule,
                name="carbon_budget",
'''), (EM, '''                lambda m, t: (
                    m.global_emissions[t] >= m.global_min_level
                    if value(m.global_min_level) is not False
                    else Constraint.Skip
                ),
                "global_min_level",
''', '''                lambda m, t: (
                    Constraint.Skip
                    if value(m.global_min_level) is False
                    else m.global_min_level <= m.global_emissions[t]
                ),
                "global_min_level",
'''), (EM, '''def _get_inertia_and_budget_constraints(
    m: AbstractModel,
)''', '''LAST_BUDGET_YEAR = 2100


def _carbon_budget_rule(m, t):
    if m.year(t) < LAST_BUDGET_YEAR or value(m.budget) is False:
        return Constraint.Skip
    allowed = m.budget
    if value(m.perc_reversible_damages) < 1:
        allowed = allowed + m.overshoot[t] * (1 - m.perc_reversible_damages)
    return m.cumulative_emissions[t] <= allowed


def _get_inertia_and_budget_constraints(
    m: AbstractModel,
)'''), (EM, '''                lambda m, t: (
                    m.global_emissions[t] - m.global_emissions[t - 1]
                    >= m.dt
                    * m.inertia_global
                    * sum(m.baseline_emissions[0, r] for r in m.regions)
                    if value(m.inertia_global) is not False and t > 0
                    else Constraint.Skip
                ),
''', '''                lambda m, t: (
                    m.global_emissions[t]
                    >= m.global_emissions[t - 1]
                    + m.dt
                    * m.inertia_global
                    * sum(m.baseline_emissions[0, r] for r in m.regions)
                    if t > 0 and value(m.inertia_global) is not False
                    else Constraint.Skip
                ),
''')]

SPECS["em-order"] = [(EM, '''    constraints = (
        _get_emissions_constraints(m)
        + _get_temperature_constraints(m)
        + _get_inertia_and_budget_constraints(m)
    )

    return constraints
''', '''    return [
        *_get_emissions_constraints(m),
        *_get_temperature_constraints(m),
        *_get_inertia_and_budget_constraints(m),
    ]
'''), (EM, '''    m.T0 = Param(units=quant.unit("degC_above_PI"), doc="::temperature.initial")
    m.temperature = Var(
        m.t, initialize=lambda m, t: m.T0, units=quant.unit("degC_above_PI")
    )
    m.TCRE = Param(doc="::temperature.TCRE")
    m.temperature_target = Param(doc="::temperature.target")
''', '''    m.temperature_target = Param(doc="::temperature.target")
    m.TCRE = Param(doc="::temperature.TCRE")
    unit = quant.unit("degC_above_PI")
    m.T0 = Param(doc="::temperature.initial", units=unit)
    m.temperature = Var(m.t, initialize=lambda m, t: m.T0, units=unit)
''')]

SPECS["mi-helpers"] = [(MI, '''def MAC(a, m, t, r):
    factor = m.learning_factor[t] * m.MAC_scaling_factor[r]
    return factor * m.MAC_gamma * a**m.MAC_beta


def AC(a, m, t, r):
    factor = m.learning_factor[t] * m.MAC_scaling_factor[r]
    return factor * m.MAC_gamma * a ** (m.MAC_beta + 1) / (m.MAC_beta + 1)
''', '''def _mac_factor(m, t, r):
    return m.learning_factor[t] * m.MAC_scaling_factor[r] * m.MAC_gamma


def MAC(a, m, t, r):
    return _mac_factor(m, t, r) * a**m.MAC_beta


def AC(a, m, t, r):
    exponent = m.MAC_beta + 1
    return _mac_factor(m, t, r) * a**exponent / exponent
'''), (MI, '''                lambda m, t, r: (m.mitigation_costs[t, r])
                == AC(m.relative_abatement[t, r], m, t, r) * m.baseline[t, r]
                + m.import_export_mitigation_cost_balance[t, r],
''', '''                lambda m, t, r: m.mitigation_costs[t, r]
                - m.import_export_mitigation_cost_balance[t, r]
                == m.baseline[t, r] * AC(m.relative_abatement[t, r], m, t, r),
''')]

SPECS["mi-area"] = [(MI, '''                == AC(m.relative_abatement[t, r], m, t, r) * m.baseline[t, r]
                + m.import_export_mitigation_cost_balance[t, r],
                "mitigation_costs",
''', '''                == _own_costs(m, t, r) + m.import_export_mitigation_cost_balance[t, r],
                "mitigation_costs",
'''), (MI, '''                lambda m, t, r: m.area_under_MAC[t, r]
                == AC(m.relative_abatement[t, r], m, t, r) * m.baseline[t, r],
                "area_under_MAC",
''', '''                lambda m, t, r: _own_costs(m, t, r) == m.area_under_MAC[t, r],
                "area_under_MAC",
'''), (MI, '''def MAC(a, m, t, r):''', '''def _own_costs(m, t, r):
    """Costs of the emission reductions within the region"""
    return AC(m.relative_abatement[t, r], m, t, r) * m.baseline[t, r]


def MAC(a, m, t, r):'''), (MI, '''    m.log_LBD_rate = Param(initialize=log(m.LBD_rate) / log(2))
''', '''    log_2 = log(2)
    m.log_LBD_rate = Param(initialize=log(m.LBD_rate) / log_2)
'''), (MI, '''            GlobalConstraint(
                lambda m, t: m.LOT_factor[t] == 1 / (1 + m.LOT_rate) ** t, "LOT"
            ),
''', '''            GlobalConstraint(
                lambda m, t: m.LOT_factor[t] == (1 + m.LOT_rate) ** (-t), "LOT"
            ),
'''), (MI, '''            == soft_min(
                (m.cumulative_global_baseline_emissions[t] - m.cumulative_emissions[t])
                / m.LBD_scaling
                + 1.0
            )
            ** m.log_LBD_rate,
''', '''            == soft_min(_relative_experience(m, t)) ** m.log_LBD_rate,
'''), (MI, '''#################
## Utils
#################
''', '''#################
## Utils
#################


def _relative_experience(m, t):
    avoided = m.cumulative_global_baseline_emissions[t] - m.cumulative_emissions[t]
    return 1.0 + avoided / m.LBD_scaling
''')]

SPECS["mi-minlevel"] = [(MI, '''                lambda m, t, r: m.rel_mitigation_costs[t, r]
                >= (m.rel_mitigation_costs_min_level if t > 0 else 0.0),
''', '''                lambda m, t, r: (
                    m.rel_mitigation_costs[t, r] >= 0.0
                    if t == 0
                    else m.rel_mitigation_costs[t, r]
                    >= m.rel_mitigation_costs_min_level
                ),
'''), (MI, '''                == sum(m.mitigation_costs[t, r] for r in m.regions)
                / sum(m.GDP_gross[t, r] for r in m.regions),
''', '''                == _global_sum(m, m.mitigation_costs, t)
                / _global_sum(m, m.GDP_gross, t),
'''), (MI, '''                    == sum(m.regional_emission_reduction[t, r] for r in m.regions)
                    / soft_min(sum(m.mitigation_costs[t, r] for r in m.regions))
''', '''                    == _global_sum(m, m.regional_emission_reduction, t)
                    / soft_min(_global_sum(m, m.mitigation_costs, t))
'''), (MI, '''def MAC(a, m, t, r):''', '''def _global_sum(m, variable, t):
    return sum(variable[t, r] for r in m.regions)


def MAC(a, m, t, r):''')]

SPECS["sl-forms"] = [(SL, '''    equilib = m.slr_thermal_equil
    adjust_rate = m.slr_thermal_adjust_rate

    return (1 - adjust_rate) ** (m.dt / 10) * slr_thermal + adjust_rate * (
        m.dt / 10
    ) * (temperature * equilib)
''', '''    num_decades = m.dt / 10
    remaining = (1 - m.slr_thermal_adjust_rate) ** num_decades * slr_thermal
    equilibrium = temperature * m.slr_thermal_equil

    return remaining + m.slr_thermal_adjust_rate * num_decades * equilibrium
'''), (SL, '''    return cumgsic + melt_rate / total_ice * m.dt * (total_ice - cumgsic) * (
        temperature - equil_temp
    )
''', '''    remaining_fraction = (total_ice - cumgsic) / total_ice
    melt = melt_rate * m.dt * remaining_fraction * (temperature - equil_temp)
    return cumgsic + melt
'''), (SL, '''    return cumgis + (m.dt / 10) * (1 / 100) * (
        melt_rate_above_thresh * temperature + init_melt_rate
    ) * (1 - cumgis / init_ice_vol)
''', '''    melt_rate = init_melt_rate + melt_rate_above_thresh * temperature
    return cumgis + m.dt / 1000 * melt_rate * (1 - cumgis / init_ice_vol)
''')]

SPECS["sl-loop"] = [(SL, '''        # GSIC
        GlobalConstraint(
            lambda m, t: (
                m.slr_cumgsic[t]
                == slr_gsic(m.slr_cumgsic[t - 1], m.temperature[t - 1], m)
                if t > 0
                else Constraint.Skip
            ),
            name="SLR_GSIC",
        ),
''', '''        # GSIC
        GlobalConstraint(
            _skip_first(
                lambda m, t: m.slr_cumgsic[t]
                == slr_gsic(m.slr_cumgsic[t - 1], m.temperature[t - 1], m)
            ),
            name="SLR_GSIC",
        ),
'''), (SL, '''        GlobalConstraint(
            lambda m, t: (
                m.slr_cumgis[t] == slr_gis(m.slr_cumgis[t - 1], m.temperature[t - 1], m)
                if t > 0
                else Constraint.Skip
            ),
            name="SLR_GIS",
        ),
''', '''        GlobalConstraint(
            _skip_first(
                lambda m, t: m.slr_cumgis[t]
                == slr_gis(m.slr_cumgis[t - 1], m.temperature[t - 1], m)
            ),
            name="SLR_GIS",
        ),
'''), (SL, '''def slr_thermal_expansion_init(m):''', '''def _skip_first(rule):
    """The rule only holds from the second period onwards"""

    def rule_after_first(m, t):
        return rule(m, t) if t > 0 else Constraint.Skip

    return rule_after_first


def slr_thermal_expansion_init(m):''')]

SPECS["co-forms"] = [(CO, '''    # Linear functional form
    if "Linear" in value(form):
        return a * b1 * x / 100.0

    # Quadratic functional form
    if "Quadratic" in value(form):
        return a * (b1 * x + b2 * x**2) / 100.0

    # Logistic functional form
    if "Logistic" in value(form):
        return a * logistic(x, b1, b2, b3) / 100.0

    raise NotImplementedError
''', '''    form_name = value(form)
    if "Linear" in form_name:
        percentage = b1 * x
    elif "Quadratic" in form_name:
        percentage = b1 * x + b2 * x**2
    elif "Logistic" in form_name:
        percentage = logistic(x, b1, b2, b3)
    else:
        raise NotImplementedError

    return a * percentage / 100.0
'''), (CO, '''    damage = functional_form(x, m, r, is_slr)
    if x0 is not None:
        damage -= functional_form(x0, m, r, is_slr)

    return damage
''', '''    damage = functional_form(x, m, r, is_slr)
    if x0 is None:
        return damage

    return damage - functional_form(x0, m, r, is_slr)
''')]

SPECS["co-params"] = [(CO, '''    if is_slr:
        form = m.damage_slr_form[r]
        b1, b2, b3 = m.damage_slr_b1[r], m.damage_slr_b2[r], m.damage_slr_b3[r]
        a = m.damage_slr_a[r]
    else:
        form = m.damage_noslr_form[r]
        b1, b2, b3 = m.damage_noslr_b1[r], m.damage_noslr_b2[r], m.damage_noslr_b3[r]
        a = m.damage_noslr_a[r]
''', '''    prefix = "damage_slr" if is_slr else "damage_noslr"
    form, b1, b2, b3, a = (
        getattr(m, f"{prefix}_{name}")[r] for name in ("form", "b1", "b2", "b3", "a")
    )
'''), (CO, '''    exponent = soft_max(-b3 * x, 10, scale=0.1)  # Avoid exponential overflow
    return b1 / (1 + b2 * exp(exponent)) - b1 / (1 + b2)
''', '''    exponent = soft_max(-b3 * x, 10, scale=0.1)  # Avoid exponential overflow
    return b1 * (1 / (1 + b2 * exp(exponent)) - 1 / (1 + b2))
'''), (CO, '''    m.damage_slr_b1 = Param(
        m.regions,
        doc=lambda params: slr_param_name(params, "b1"),
    )
    m.damage_slr_b2 = Param(
        m.regions,
        within=Any,
        doc=lambda params: slr_param_name(params, "b2"),
    )  # within=Any since it can be empty for some functional forms
    m.damage_slr_b3 = Param(
        m.regions,
        within=Any,
        doc=lambda params: slr_param_name(params, "b3"),
    )  # within=Any since it can be empty for some functional forms
''', '''    def slr_param(name, **kwargs):
        doc = lambda params: slr_param_name(params, name)
        return Param(m.regions, doc=doc, **kwargs)

    m.damage_slr_b1 = slr_param("b1")
    # within=Any since they can be empty for some functional forms
    m.damage_slr_b2 = slr_param("b2", within=Any)
    m.damage_slr_b3 = slr_param("b3", within=Any)
''')]

SPECS["co-mortality"] = [(CO, '''    constraints.extend(
        [
            RegionalConstraint(
                lambda m, t, r: m.mortality_oldest[t, r] ==  m.mortality_param_oldest_a[r] +  m.mortality_param_oldest_b[r] * m.temperature[t] + m.mortality_param_oldest_c[r] * m.temperature[t]**2
            ),
            RegionalConstraint(
                lambda m, t, r: m.mortality_older[t, r] ==  m.mortality_param_older_a[r] +  m.mortality_param_older_b[r] * m.temperature[t] + m.mortality_param_older_c[r] * m.temperature[t]**2
            ),
            RegionalConstraint(
                lambda m, t, r: m.mortality_young[t, r] ==  m.mortality_param_young_a[r] +  m.mortality_param_young_b[r] * m.temperature[t] + m.mortality_param_young_c[r] * m.temperature[t]**2
            )
        ]
    )
''', '''    def mortality_rule(age_group):
        def rule(m, t, r):
            a = getattr(m, f"mortality_param_{age_group}_a")[r]
            b = getattr(m, f"mortality_param_{age_group}_b")[r]
            c = getattr(m, f"mortality_param_{age_group}_c")[r]
            mortality = getattr(m, f"mortality_{age_group}")[t, r]
            return mortality == a + b * m.temperature[t] + c * m.temperature[t] ** 2

        return rule

    for age_group in ["oldest", "older", "young"]:
        constraints.append(RegionalConstraint(mortality_rule(age_group)))
''')]

SPECS["cd-rules"] = [(CD, '''            RegionalConstraint(
                lambda m, t, r: m.GDP_net[t, r]
                == m.GDP_gross[t, r]
                * (1 - (m.damage_costs[t, r] if not value(m.ignore_damages) else 0))
                - m.mitigation_costs[t, r]
                - m.financial_transfer[t, r],
                "GDP_net",
            ),
''', '''            RegionalConstraint(_gdp_net_rule, "GDP_net"),
'''), (CD, '''            RegionalConstraint(
                lambda m, t, r: m.consumption[t, r] == (1 - m.sr) * m.GDP_net[t, r],
                "consumption",
            ),
''', '''            RegionalConstraint(
                lambda m, t, r: m.consumption[t, r]
                == m.GDP_net[t, r] - m.sr * m.GDP_net[t, r],
                "consumption",
            ),
'''), (CD, '''def get_constraints(m: AbstractModel)''', '''def _gdp_net_rule(m, t, r):
    damages = 0
    if not value(m.ignore_damages):
        damages = m.damage_costs[t, r] * m.GDP_gross[t, r]
    other_costs = m.mitigation_costs[t, r] + m.financial_transfer[t, r]
    return m.GDP_net[t, r] == m.GDP_gross[t, r] - damages - other_costs


def get_constraints(m: AbstractModel)'''), (CD, '''                    (
                        m.capital_stock[t, r]
                        == m.capital_stock[t - 1, r]
                        + m.dt
                        * economics.calc_dKdt(
                            m.capital_stock[t, r], m.dk, m.investments[t, r], m.dt
                        )
                    )
                    if t > 0
                    else Constraint.Skip
''', '''                    Constraint.Skip
                    if t == 0
                    else m.capital_stock[t, r]
                    == m.capital_stock[t - 1, r]
                    + m.dt
                    * economics.calc_dKdt(
                        K=m.capital_stock[t, r],
                        dk=m.dk,
                        I=m.investments[t, r],
                        dt=m.dt,
                    )
''')]

SPECS["es-share"] = [(ES, '''    year_linear_part = (year_t - year_0) / (year_conv - year_0)

    return (
        min(year_linear_part, 1) * m.percapconv_share_pop[t, r]
        + max(1 - year_linear_part, 0) * m.percapconv_share_init[r]
    )
''', '''    if year_t >= year_conv:
        return m.percapconv_share_pop[t, r]

    weight = (year_t - year_0) / (year_conv - year_0)
    share_init = m.percapconv_share_init[r]
    return share_init + weight * (m.percapconv_share_pop[t, r] - share_init)
'''), (ES, '''            lambda m, t, r: m.rel_mitigation_costs[t, r]
            + m.damage_costs[t, r]
            + m.rel_financial_transfer[t, r],
''', '''            _rel_total_costs,
'''), (ES, '''def _get_percapconv_constraints(m: AbstractModel)''', '''def _rel_total_costs(m, t, r):
    costs = [m.rel_mitigation_costs, m.damage_costs, m.rel_financial_transfer]
    return sum(cost[t, r] for cost in costs)


def _get_percapconv_constraints(m: AbstractModel)''')]

SPECS["es-active"] = [(ES, '''            ignore_if=lambda m, t, r: value(m.effort_sharing_regime)
            != "equal_total_costs"
            or m.year(t) > 2100,
''', '''            ignore_if=lambda m, t, r: not (
                _has_regime(m, "equal_total_costs") and m.year(t) <= 2100
            ),
'''), (ES, '''            ignore_if=lambda m, t, r: value(m.effort_sharing_regime)
            != "per_cap_convergence"
            or t == 0,
''', '''            ignore_if=lambda m, t, r: t == 0
            or not _has_regime(m, "per_cap_convergence"),
'''), (ES, '''def _get_percapconv_constraints(m: AbstractModel)''', '''def _has_regime(m, name):
    return value(m.effort_sharing_regime) == name


def _get_percapconv_constraints(m: AbstractModel)'''), (ES, '''        initialize=lambda m, r: m.baseline_emissions[0, r]
        / sum(m.baseline_emissions[0, s] for s in m.regions),
''', '''        initialize=lambda m, r: value(m.baseline_emissions[0, r])
        / sum(value(m.baseline_emissions[0, s]) for s in m.regions),
''')]

SPECS["et-price"] = [(ET + "emissiontrade.py", '''                lambda m, t: m.global_carbonprice[t]
                == sum(m.carbonprice[t, r] * m.population[t, r] for r in m.regions)
                / sum(m.population[t, r] for r in m.regions),
''', '''                _global_carbonprice_rule,
'''), (ET + "emissiontrade.py", '''def get_constraints(m: AbstractModel)''', '''def _global_carbonprice_rule(m, t):
    weighted_prices, global_population = 0, 0
    for r in m.regions:
        weighted_prices += m.population[t, r] * m.carbonprice[t, r]
        global_population += m.population[t, r]
    return m.global_carbonprice[t] == weighted_prices / global_population


def get_constraints(m: AbstractModel)'''), (ET + "emissiontrade.py", '''                lambda m, t, r: (
                    m.regional_emission_allowances[t, r]
                    == m.baseline[t, r] - m.paid_for_emission_reductions[t, r]
                    if t > 0
                    else Constraint.Skip
                )
''', '''                lambda m, t, r: (
                    m.regional_emission_allowances[t, r]
                    + m.paid_for_emission_reductions[t, r]
                    == m.baseline[t, r]
                    if t != 0
                    else Constraint.Skip
                )
''')]

SPECS["et-pool"] = [(ET + "globalcostpool.py", '''                lambda m, t, r: (
                    m.paid_for_emission_reductions[t, r]
                    == m.mitigation_costs[t, r]
                    * m.global_emission_reduction_per_cost_unit[t]
                    if t > 0
                    else Constraint.Skip
                ),
''', '''                lambda m, t, r: (
                    Constraint.Skip
                    if t < 1
                    else m.global_emission_reduction_per_cost_unit[t]
                    * m.mitigation_costs[t, r]
                    == m.paid_for_emission_reductions[t, r]
                ),
'''), (ET + "globalcostpool.py", '''            GlobalConstraint(
                lambda m, t: sum(m.mitigation_costs[t, r] for r in m.regions)
                == sum(m.area_under_MAC[t, r] for r in m.regions),
''', '''            GlobalConstraint(
                lambda m, t: sum(
                    m.mitigation_costs[t, r] - m.area_under_MAC[t, r]
                    for r in m.regions
                )
                == 0,
'''), (FT + "globaldamagepool.py", '''                lambda m, t, r: m.financial_transfer[t, r]
                >= -m.damage_costs[t, r] * m.GDP_gross[t, r],
''', '''                lambda m, t, r: -m.financial_transfer[t, r]
                <= m.damage_costs[t, r] * m.GDP_gross[t, r],
'''), (FT + "globaldamagepool.py", '''                lambda m, t: (
                    sum(m.financial_transfer[t, r] for r in m.regions) == 0.0
                    if t > 0
                    else Constraint.Skip
                ),
''', '''                lambda m, t: (
                    Constraint.Skip
                    if t == 0
                    else sum(m.financial_transfer[t, :]) == 0.0
                ),
''')]

SPECS["we-sums"] = [(WE + "cost_minimising.py", '''            GlobalConstraint(
                lambda m, t: m.yearly_welfare[t]
                == sum(m.population[t, r] for r in m.regions)
                * calc_utility(
                    sum(m.consumption[t, r] for r in m.regions),
                    sum(m.population[t, r] for r in m.regions),
                    m.elasmu,
                ),
                "yearly_welfare",
            ),
''', '''            GlobalConstraint(_yearly_welfare_rule, "yearly_welfare"),
'''), (WE + "cost_minimising.py", '''def get_constraints(m: AbstractModel)''', '''def _yearly_welfare_rule(m, t):
    population = sum(m.population[t, r] for r in m.regions)
    consumption = sum(m.consumption[t, r] for r in m.regions)
    utility = calc_utility(consumption, population, m.elasmu)
    return m.yearly_welfare[t] == population * utility


def get_constraints(m: AbstractModel)'''), (WE + "utility_fct.py", '''    return (soft_min(consumption / population) ** (1 - elasmu) - 1) / (1 - elasmu)
''', '''    exponent = 1 - elasmu
    per_capita_consumption = soft_min(consumption / population)
    return (per_capita_consumption**exponent - 1) / exponent
'''), (WE + "inequal_aversion_general.py", '''    return soft_min(sum_regional_utility / global_population) ** (
        (1 - elasmu) / (1 - inequal_aversion)
    ) / (1 - elasmu)
''', '''    exponent = (1 - elasmu) / (1 - inequal_aversion)
    return soft_min(sum_regional_utility / global_population) ** exponent / (1 - elasmu)
'''), (WE + "welfare_loss_minimising.py", '''                == sum(m.population[t, r] * m.utility[t, r] for r in m.regions),
''', '''                == sum(m.utility[t, r] * m.population[t, r] for r in m.regions),
''')]

SPECS["ob-discount"] = [(OB + "utility.py", '''                lambda m, t: (
                    m.NPV[t]
                    == m.NPV[t - 1]
                    + m.dt
                    * exp(-m.PRTP * (m.year(t) - m.beginyear))
                    * m.yearly_welfare[t]
                    if t > 0
                    else Constraint.Skip
                ),
''', '''                _npv_rule,
'''), (OB + "utility.py", '''def get_constraints(m: AbstractModel)''', '''def _discount_factor(m, t):
    return exp(-m.PRTP * m.dt * t)


def _npv_rule(m, t):
    if t == 0:
        return Constraint.Skip
    discounted_welfare = _discount_factor(m, t) * m.yearly_welfare[t]
    return m.NPV[t] == m.NPV[t - 1] + discounted_welfare * m.dt


def get_constraints(m: AbstractModel)'''), (OB + "globalcosts.py", '''                        sum(m.mitigation_costs[t, r] for r in m.regions)
                        + sum(
                            m.damage_costs[t, r] * m.GDP_gross[t, r] for r in m.regions
                        )
''', '''                        sum(
                            m.mitigation_costs[t, r]
                            + m.damage_costs[t, r] * m.GDP_gross[t, r]
                            for r in m.regions
                        )
''')]

SPECS["ut-load"] = [(UT, '''    full_filename = os.path.join(
        os.path.dirname(__file__), "../inputdata/config/", filename
    )
    with open(full_filename, "r", encoding="utf8") as configfile:
        output = yaml.safe_load(configfile)
    return output
''', '''    folder = os.path.join(os.path.dirname(__file__), "..", "inputdata", "config")
    full_filename = os.path.join(folder, filename)
    with open(full_filename, encoding="utf8") as configfile:
        return yaml.safe_load(configfile)
'''), (UT, '''            time1 = time.time()
            result = fct(*args, **kwargs)
            time2 = time.time()
            message = "{} took {:.3g} seconds.".format(name, time2 - time1)
''', '''            start = time.time()
            result = fct(*args, **kwargs)
            elapsed = time.time() - start
            message = f"{name} took {elapsed:.3g} seconds."
''')]
