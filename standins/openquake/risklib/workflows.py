"""Stand-in for openquake.risklib.workflows"""


class RiskModel(object):
    def __init__(self, taxonomy, workflow, *args, **kw):
        self.taxonomy = taxonomy
        self.workflow = workflow
        self.args = args
        vars(self).update(kw)

    @property
    def loss_types(self):
        return self.workflow.loss_types

    @property
    def risk_functions(self):
        return self.workflow.risk_functions


class Workflow(object):
    def __init__(self, risk_functions):
        self.risk_functions = risk_functions

    @property
    def loss_types(self):
        return sorted(self.risk_functions)


class Scenario(Workflow):
    def __init__(self, vulnerability_functions, insured_losses=False):
        Workflow.__init__(self, vulnerability_functions)
        self.vulnerability_functions = vulnerability_functions
        self.insured_losses = insured_losses


class Damage(Workflow):
    def __init__(self, fragility_functions):
        Workflow.__init__(self, fragility_functions)
        self.fragility_functions = fragility_functions
