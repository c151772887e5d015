// Scenes with a hyperelastic force field.
#pragma once
#include "fem.h"
#include <SofaCaribou/Forcefield/HyperelasticForcefield[Hexahedron].h>
#include <SofaCaribou/Forcefield/HyperelasticForcefield[Tetrahedron].h>
#include <SofaCaribou/Topology/CaribouTopology[Hexahedron].h>
#include <SofaCaribou/Topology/CaribouTopology[Tetrahedron].h>
#include <SofaCaribou/Material/SaintVenantKirchhoffMaterial.h>
#include <SofaCaribou/Material/NeoHookeanMaterial.h>
#include <SofaCaribou/Algebra/EigenMatrix.h>
using namespace fem;
using sofa::core::MechanicalParams;
using Material = SofaCaribou::material::HyperelasticMaterial<DT3>;
static sofa::core::objectmodel::SPtr_<Material> material(const Law &l) {
    sofa::core::objectmodel::SPtr_<Material> m(l.kind == 0 ? (Material *)new SofaCaribou::material::SaintVenantKirchhoffMaterial<DT3>() : (Material *)new SofaCaribou::material::NeoHookeanMaterial<DT3>());
    data<double>(*m, "young_modulus").setValue(l.E); data<double>(*m, "poisson_ratio").setValue(l.nu);
    return m;
}
template <class E> struct Scene {
    using FF = SofaCaribou::forcefield::HyperelasticForcefield<E>;
    using Topo = SofaCaribou::topology::CaribouTopology<E>;
    sofa::core::objectmodel::SPtr_<sofa::simulation::Node> node{new sofa::simulation::Node()};
    sofa::core::objectmodel::SPtr_<State> mo{new State()};
    sofa::core::objectmodel::SPtr_<Material> mat;
    sofa::core::objectmodel::SPtr_<FF> ff;
    // how: 0 CaribouTopology with its own positions, 1 CaribouTopology taking the positions of the state, 2 SOFA container
    Scene(const Mesh &m, const Law &law, int how) : mat(material(law)) {
        const auto x = coords(m.x);
        mo->x_.setValue(x); mo->x0_.setValue(x); mo->xfree_.setValue(x);
        DT3::VecDeriv z(x.size()); mo->v_.setValue(z); mo->f_.setValue(z); mo->dx_.setValue(z);
        node->addObject(mo); node->addObject(mat);
        if (how < 2) {
            sofa::core::objectmodel::SPtr_<Topo> t(new Topo());
            set_indices<E>(*t, m);
            if (how == 0) data<DT3::VecCoord>(*t, "position").setValue(x);
            node->addObject(t); t->init();
        } else if constexpr (ref::Info<E>::order == 1) {
            if constexpr (ref::Info<E>::kind == ref::HEX) {
                sofa::core::objectmodel::SPtr_<sofa::component::topology::HexahedronSetTopologyContainer> t(new sofa::component::topology::HexahedronSetTopologyContainer());
                typename std::decay_t<decltype(t->hexahedra)>::value_type v(m.el.size());
                for (size_t e = 0; e < v.size(); ++e) for (size_t i = 0; i < 8; ++i) v[e][i] = m.el[e][i];
                t->hexahedra.setValue(v); node->addObject(t);
            } else {
                sofa::core::objectmodel::SPtr_<sofa::component::topology::TetrahedronSetTopologyContainer> t(new sofa::component::topology::TetrahedronSetTopologyContainer());
                typename std::decay_t<decltype(t->tetrahedra)>::value_type v(m.el.size());
                for (size_t e = 0; e < v.size(); ++e) for (size_t i = 0; i < 4; ++i) v[e][i] = m.el[e][i];
                t->tetrahedra.setValue(v); node->addObject(t);
            }
        }
        ff = sofa::core::objectmodel::SPtr_<FF>(new FF());
        node->addObject(ff);
        ff->init();
    }
};
