import os, sys
K = os.path.dirname(os.path.abspath(sys.argv[1]))
APP = open(K + "/app.sh").read()
LIB = {"app.py": open(K + "/app.py").read()}
PRE = "import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom app import *\n"
P = "source/postprocessing.cc"
X = "applications/simple_shear.cc"
R = "source/run_time_parameters.cc"
def app(id, property, needs, breaks, edits, demo):
    return dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo_sh=APP, files=dict(LIB, **{"demo.py": PRE + demo}))
SEEDS = [
app("O02-boundary-of-first-crystal", "O02",
  "decohesion with at least two crystals, so that the crystal at the loaded boundary has displacements of its own",
  "the shear stress reported for the loaded boundary is evaluated with the displacements of the first crystal",
  [(P, """          fe_face_values[fe_field->get_displacement_extractor(crystal_id)].get_function_symmetric_gradients(""",
       """          fe_face_values[fe_field->get_displacement_extractor(0)].get_function_symmetric_gradients(""")],
  '''r = run([(V, "Allow decohesion at grain boundaries", "true")])
need(r["rc"] == 0, "run")
a = table(r["results/stress12_vs_shear_strain_at_boundary.txt"])
b = table(r["results/homogenization.txt"])
for x, y in zip(a, b):
    need(abs(x["stress_12_at_upper_boundary"] - y["Stress_12"]) < 0.25 * abs(y["Stress_12"]), "stress at the boundary %g, in the body %g" % (x["stress_12_at_upper_boundary"], y["Stress_12"]))
'''),
app("S05-strain-of-this-process", "S05",
  "more than one process",
  "the average strain misses the contributions of the cells of the other processes",
  [(P, """  domain_integral_microstrain_fluctuations =
    dealii::Utilities::MPI::sum(
      domain_integral_microstrain_fluctuations, MPI_COMM_WORLD);

""", "")],
  '''a, b = run(elements=4), run(elements=4, np=2)
need(a["rc"] == 0 and b["rc"] == 0, "runs")
for x, y in zip(table(a["results/homogenization.txt"]), table(b["results/homogenization.txt"])):
    for k in x:
        if x[k] == x[k]: need(abs(x[k] - y[k]) < 1e-4 * max(1e-2, abs(x[k])), "%s is %g with one and %g with two processes" % (k, x[k], y[k]))
'''),
app("O01-density-of-shared-displacements", "O01",
  "decohesion with at least two crystals and slips that vary in space",
  "the reported dislocation density is computed from the components of a field without decohesion",
  [(P, """            equivalent_edge_dislocation_density +=
              std::pow(inputs.solution_gradients[quadrature_point_index][
                  index_offset + slip_id + n_slips * crystal_id] *""",
       """            equivalent_edge_dislocation_density +=
              std::pow(inputs.solution_gradients[quadrature_point_index][
                  dim + slip_id + n_slips * crystal_id] *""")],
  '''from math import sin, radians
r = run([(V, "Allow decohesion at grain boundaries", "true")], elements=4)
need(r["rc"] == 0, "run")
d = vtu(r["results/paraview/solution_00001.0.vtu"])
need(len(d) == 16, "cells")
for c in range(4):
    p = d[4 * c:4 * c + 4]
    lo, hi = min(p, key=lambda x: x[0][1]), max(p, key=lambda x: x[0][1])
    want = abs(hi[1]["Slip_01"][0] - lo[1]["Slip_01"][0]) / 0.25 * sin(radians(17 if c < 2 else 48))
    got = lo[1]["EquivalentEdgeDislocationDensity"][0]
    need(abs(got - want) < 1e-5 + 1e-3 * want, "density %g instead of %g in cell %d" % (got, want, c))
'''),
app("A01-loads-the-first-crystal-only", "A01",
  "decohesion with at least two crystals: the loaded boundary belongs to another crystal than the first",
  "the prescribed displacement of the loaded boundary is not updated between the steps",
  [(X, """    for (unsigned int crystal_id = 0;
          crystal_id < crystals_data->get_n_crystals();
          ++crystal_id)
    {
      dealii::VectorTools::interpolate_boundary_values(
        *mapping,
        fe_field->get_dof_handler(),
        3,""",
       """    for (unsigned int crystal_id = 0;
          crystal_id < 1;
          ++crystal_id)
    {
      dealii::VectorTools::interpolate_boundary_values(
        *mapping,
        fe_field->get_dof_handler(),
        3,""")],
  '''r = run([(V, "Allow decohesion at grain boundaries", "true")])
need(r["rc"] == 0, "run")
for i in range(2):
    for p, v in vtu(r["results/paraview/solution_%05d.0.vtu" % i]):
        if p[1] == 1: need(abs(v["Displacement"][0] - 0.01 * (i + 1)) < 1e-6, "displacement %g of the loaded boundary in record %d" % (v["Displacement"][0], i))
'''),
app("A02-last-average-missing", "A02",
  "a number of steps that is not a multiple of the homogenisation frequency",
  "the averages at the end of the programme are not written",
  [(X, """      (discrete_time.get_step_number() %
         parameters.homogenization.homogenization_frequency == 0 ||
        discrete_time.get_current_time() ==
          discrete_time.get_end_time()))""",
       """      discrete_time.get_step_number() %
         parameters.homogenization.homogenization_frequency == 0)""")],
  '''for f, s in (1, 2), (2, 3), (3, 3), (5, 3):
    r = run([(H, "Homogenization frequency", f)], steps=s)
    need(r["rc"] == 0, "run")
    t = [round(x["Time"] * s) for x in table(r["results/homogenization.txt"])]
    need(t == [i for i in range(1, s + 1) if i % f == 0 or i == s], "averages after steps %s of %d with frequency %d" % (t, s, f))
'''),
app("L01-first-unloading-step", "L01",
  "a cyclic programme with an unloading phase whose steps are longer or shorter than those of the cycles",
  "the first step of the unloading phase has the size of the steps of the cycles, so that the programme ends late",
  [(R, """    else if (step_number < (n_steps_loading_and_unloading_phase +
          4.0 * n_steps_quarter_period * n_cycles))""",
       """    else if (step_number <= (n_steps_loading_and_unloading_phase +
          4.0 * n_steps_quarter_period * n_cycles))""")],
  '''C = T + "/Cyclic load parameters"
r = run([(T, "Loading type", "cyclic"), (C, "Number of steps during a quarter cycle", 2), (C, "Number of cycles", 1), (C, "Duration of un- and loading phase", 1.0), (C, "Period", 1.0),
         (C, "Number of steps during un- and loading phase", 2), (C, "Skip unloading phase", "false")], crystals=1, elements=2)
need(r["rc"] == 0, "run")
t = [x["Time"] for x in table(r["results/homogenization.txt"])]
want = [0.5, 1.0] + [1 + i / 8. for i in range(1, 9)] + [2.5, 3.0]
need(len(t) == len(want) and all(abs(a - b) < 1e-4 for a, b in zip(t, want)), "instants %s" % t)
'''),
]
