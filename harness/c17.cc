// C17: what an input file says is what the program gets; sections that are absent leave defaults or earlier values.
#include "input_doc.h"
using namespace vf;

struct Expected {
  InputModel m;
  Expected()
  {
    m.out_dir = m.constant_dt = m.vname = m.vscheme = m.lname = m.lscheme = "";
    for (double& d : m.box) d = 0;
    m.cells = {0, 0, 0};
    m.start = m.end = m.dt = m.radius = 0;
    m.lcenter = {0, 0, 0};
  }
  void apply(const InputModel& n)
  {
    if (n.has[0]) m.out_dir = n.out_dir;
    if (n.has[1]) {
      for (int q = 0; q < 6; ++q) m.box[q] = n.box[q];
      m.cells = n.cells;
    }
    if (n.has[2]) m.start = n.start, m.end = n.end, m.dt = n.dt, m.constant_dt = n.constant_dt;
    if (n.has[3]) m.vname = n.vname, m.vscheme = n.vscheme, m.vvector = n.vvector, m.vcenter = n.vcenter;
    if (n.has[4]) m.lname = n.lname, m.lscheme = n.lscheme, m.lcenter = n.lcenter, m.radius = n.radius;
  }
};
static void compare(const Expected& e, const GALS::INPUT_FIELDS::InputFields& f, const std::string& text, const char* when)
{
  const InputModel& m = e.m;
  auto num = [&](const char* key, double got, double want) {
    VF_CHECK(got == want, key, when << " got " << Prec{got} << " expected " << Prec{want} << " from: " << text.substr(0, 1500));
    rep().count("values");
  };
  auto str = [&](const char* key, const std::string& got, const std::string& want) {
    VF_CHECK(got == want, key, when << " got '" << got << "' expected '" << want << "' from: " << text.substr(0, 1500));
    rep().count("values");
  };
  auto vec = [&](const char* key, const std::vector<double>& got, const std::vector<double>& want) {
    VF_CHECK(got == want, key, when << " got " << got.size() << " values, expected " << want.size() << " from: " << text.substr(0, 1500));
    rep().count("values");
  };
  str("output_directory", f.m_general->output_directory, m.out_dir);
  num("x_min", f.m_grid->x_min, m.box[0]);
  num("x_max", f.m_grid->x_max, m.box[1]);
  num("y_min", f.m_grid->y_min, m.box[2]);
  num("y_max", f.m_grid->y_max, m.box[3]);
  num("z_min", f.m_grid->z_min, m.box[4]);
  num("z_max", f.m_grid->z_max, m.box[5]);
  num("nx", f.m_grid->nx, m.cells[0]);
  num("ny", f.m_grid->ny, m.cells[1]);
  num("nz", f.m_grid->nz, m.cells[2]);
  num("start", f.m_time->start, m.start);
  num("end", f.m_time->end, m.end);
  num("dt", f.m_time->dt, m.dt);
  str("constant_dt", f.m_time->constant_dt, m.constant_dt);
  str("velocity_name", f.m_velocity->name, m.vname);
  vec("velocity_vector", f.m_velocity->vector, m.vvector);
  vec("velocity_center", f.m_velocity->center, m.vcenter);
  str("velocity_gradient_scheme", f.m_velocity->gradient_scheme, m.vscheme);
  str("levelset_name", f.m_levelset->name, m.lname);
  for (int a = 0; a < 3; ++a) num("levelset_center", f.m_levelset->center[a], m.lcenter[a]);
  num("radius", f.m_levelset->radius, m.radius);
  str("levelset_gradient_scheme", f.m_levelset->gradient_scheme, m.lscheme);
}

int main(int argc, char** argv)
{
  init(argc, argv);
  cases("files", 1200, 20000, [](Rng& r, long c) {
    // memory the allocator hands out is not zero, so that unset members show
    GALS::INPUT_FIELDS::InputFields fields;
    Expected e;
    compare(e, fields, "", "before parsing");
    int rounds = r.irange(1, 3);
    for (int n = 0; n < rounds; ++n) {
      InputModel m = random_input(r);
      if (r.coin(0.4))
        for (bool& h : m.has) h = r.coin(0.6);
      std::string text = text_of(r, m);
      std::string path = write_file(text, "in" + std::to_string(c % 7));
      e.apply(m);
      try {
        GALS::INPUT_PARSER::InputParser().parse(path, &fields);
      } catch (const std::exception& x) {
        VF_CHECK(false, "valid_file_refused", x.what() << " for: " << text.substr(0, 1500));
        return;
      }
      compare(e, fields, text, n ? "after parsing into used fields" : "after parsing");
      VF_CHECK(read_file(path) == text, "input_file_changed", path);
      rep().eval(hash_str(text), !text.empty());
      if (c < 2) rep().sample(text.substr(0, 400));
      int present = 0;
      for (bool h : m.has) present += h;
      rep().count(VF_STR("files_with_" << present << "_sections"));
      // a second object parsed from the same file agrees, and the first is not disturbed
      GALS::INPUT_FIELDS::InputFields again;
      Expected e2;
      e2.apply(m);
      GALS::INPUT_PARSER::InputParser parser;
      parser.parse(path, &again);
      compare(e2, again, text, "second object");
      compare(e, fields, text, "first object after the second");
    }
  });
  return rep().finish();
}
