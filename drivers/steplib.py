"""Things workflow steps create from specs: backends, ansatzes, optimizers, samplers (used by d_steps)."""
import numpy as np
import sympy
from overrides import overrides
from zquantum.core.circuits import Circuit, CNOT, H, RX, RY, RZ, X
from zquantum.core.interfaces.ansatz import Ansatz
from zquantum.core.interfaces.optimizer import Optimizer, construct_history_info, optimization_result
from zquantum.core.symbolic_simulator import SymbolicSimulator


class NoisyBackend(SymbolicSimulator):
    """Applies an X gate on each qubit named by the noise model and on the first qubit of each connection."""

    def _noisy(self, circuit):
        extra = list(self.noise_model or [])
        if self.device_connectivity is not None:
            extra += [c[0] for c in self.device_connectivity.connectivity]
        return circuit + Circuit([X(q) for q in extra if q < circuit.n_qubits], n_qubits=circuit.n_qubits)

    def run_circuit_and_measure(self, circuit, n_samples, symbol_map=None):
        return super().run_circuit_and_measure(self._noisy(circuit), n_samples)

    def get_measurement_outcome_distribution(self, circuit, n_samples=None):
        return super().get_measurement_outcome_distribution(self._noisy(circuit), n_samples)

    def get_exact_expectation_values(self, circuit, operator):
        return super().get_exact_expectation_values(self._noisy(circuit), operator)


class CountingBackend(NoisyBackend):
    n_samples = 7


def noise_of(data):
    return [int(x) for x in data]


class StepAnsatz(Ansatz):
    supports_parametrized_circuits = True

    def __init__(self, number_of_layers, qubits):
        super().__init__(number_of_layers)
        self.qubits = qubits

    @property
    def number_of_qubits(self):
        return self.qubits

    @overrides
    def _generate_circuit(self, parameters=None):
        n = self.number_of_layers
        ps = [sympy.Symbol("theta_%d" % i) for i in range(n)] if parameters is None else parameters
        return Circuit([g for i in range(n) for g in (RX(ps[i])(i % self.qubits), CNOT(i % self.qubits, (i + 1) % self.qubits))], n_qubits=self.qubits)

    @property
    def number_of_params(self):
        return self.number_of_layers


class FixedAnsatz(StepAnsatz):
    supports_parametrized_circuits = False


class QAOAFarhiAnsatz(StepAnsatz):
    """Uses the Hamiltonian: one rotation for each of its terms."""

    def __init__(self, number_of_layers, cost_hamiltonian):
        super().__init__(number_of_layers, 2)
        self.cost_hamiltonian = cost_hamiltonian

    @overrides
    def _generate_circuit(self, parameters=None):
        c = super()._generate_circuit(parameters)
        for t, v in self.cost_hamiltonian.terms.items():
            c += RZ(float(np.real(v)))(t[0][0] if t else 0)
            c += RX(0.5)(t[0][0] if t else 0)
        return c


class WarmStartQAOAAnsatz(QAOAFarhiAnsatz):
    def __init__(self, number_of_layers, cost_hamiltonian, thetas):
        super().__init__(number_of_layers, cost_hamiltonian)
        self.thetas = thetas

    @overrides
    def _generate_circuit(self, parameters=None):
        return Circuit([RY(float(t))(i) for i, t in enumerate(self.thetas)]) + super()._generate_circuit(parameters)


class GridOptimizer(Optimizer):
    """Steps through parameters around the initial ones and keeps the best."""

    def __init__(self, step=0.5, recorder=None):
        super().__init__(**({} if recorder is None else {"recorder": recorder}))
        self.step = step

    def _minimize(self, cost_function, initial_params, keep_history=False):
        start = np.array(initial_params, dtype=float)
        best, n = (cost_function(start), start), 1
        for i in range(len(start)):
            for s in (-self.step, self.step):
                p = start.copy()
                p[i] += s
                v = cost_function(p)
                n += 1
                if v < best[0]:
                    best = (v, p)
        return optimization_result(opt_value=best[0], opt_params=best[1], nit=1, nfev=n, **construct_history_info(cost_function, keep_history))


def counting_sampler(start=1):
    return iter(range(start, start + 10000))
