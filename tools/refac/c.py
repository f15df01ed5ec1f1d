# @ plot.py
def _setup(figsize=None):
    """Reset styles and set fonts."""
    plt.rcdefaults()
    for group, opts in (('font', {'family': 'serif', 'size': 10}), ('mathtext', {'fontset': 'cm'})):
        plt.rc(group, **opts)
    if figsize is None:
        return None, None
    fig, ax = plt.subplots(figsize=figsize)
    return fig, ax


def _finish(name):
    save_plot(name)
    plt.close()
    plt.rcdefaults()


def outline(grid):
    """Extract outline values of a 2D array (matrix, grid)."""
    rows, cols = grid.shape
    top = [grid[0, j] for j in range(cols - 1)]
    right = [grid[i, cols - 1] for i in range(rows - 1)]
    bot = [grid[rows - 1, j] for j in range(cols - 1, 0, -1)]
    left = [grid[i, 0] for i in range(rows - 1, -1, -1)]
    return np.array(top + right + bot + left)


def significant_digits(decimal):
    """digits"""
    exponent = np.floor(np.log10(decimal))
    return int(-exponent)


def adjust_lightness(color, amount=0.5):
    """light"""
    named = mc.cnames.get(color, color) if isinstance(color, str) else color
    hue, light, sat = colorsys.rgb_to_hls(*mc.to_rgb(named))
    light = min(1, amount * light)
    if light < 0:
        light = 0
    return colorsys.hls_to_rgb(hue, light, sat)


def slab_profile(instance):
    """Create bar chart of slab profile."""
    fig, ax = _setup((8/3, 4))
    rho = instance.slab[::-1, 0]
    top = np.cumsum(instance.slab[::-1, 1])
    bot = np.concatenate([[0], top[:-1]])
    x = np.repeat(rho, 2)
    y = np.column_stack([bot, top]).ravel()
    ax.set(xlabel=r'$\longleftarrow$ Density $\rho$ (kg/m$^3$)',
           ylabel=r'Height above weak layer (mm) $\longrightarrow$', xlim=(500, 0))
    ax.fill_betweenx(y, 0, x)
    _finish('profile')


def _label(ax, line, x, y, k, label, style):
    ax.text((x[k - 1] + x[k])/2, (y[k - 1] + y[k])/2, label, color=line.get_color(), **style)


def _bounds(li):
    edges = [0]
    for l in li:
        edges.append(edges[-1] + l)
    return edges


def plot_data(
        name, ax1data, ax1label,
        ax2data=None, ax2label=None,
        labelpos=None, vlines=True,
        li=(), mi=(), ki=(),
        xlabel=r'Horizontal position $x$ (cm)'):
    """Plot data. Base function."""
    fig, ax1 = _setup((4, 8/3))
    style, colors = set_plotstyles()
    arrow = r' $\longrightarrow$'
    ax1.autoscale(axis='x', tight=True)
    ax1.set_xlabel(f'{xlabel}{arrow}')
    ax1.set_ylabel(f'{ax1label}{arrow}')
    ax1.axhline(y=0, lw=0.5, c='gray')
    if not vlines:
        ax1.autoscale(axis='y', tight=True)
    else:
        edges = _bounds(li)
        ax1.axvline(x=0, lw=0.5, c='gray')
        for i, supported in enumerate(ki):
            if supported:
                continue
            ax1.axvspan(edges[i]/10, edges[i + 1]/10, facecolor='gray', alpha=0.05, zorder=100)
        for i in range(len(mi)):
            if mi[i] > 0:
                ax1.axvline(edges[i + 1]/10, linewidth=0.5, color='gray')
    if not labelpos:
        labelpos = int(0.95*np.count_nonzero(~np.isnan(ax1data[0][0])))
    for i, (x, y, label) in enumerate(ax1data, 1):
        dotted = 'FEA' in label or label == ''
        ax1.plot(x, y, lw=3, c='white')
        line = ax1.plot(x, y, ':' if dotted else '-', lw=1)[0]
        ok = ~np.isnan(x)
        xs, ys = np.asarray(x)[ok], np.asarray(y)[ok]
        if dotted:
            _label(ax1, line, xs, ys, -2, label, style)
        elif xs.size:
            _label(ax1, line, xs, ys, labelpos - 10*i, label, style)
    if ax2data:
        ax2 = ax1.twinx()
        ax2.set_ylabel(f'{ax2label}{arrow}')
        for x, y, label in ax2data:
            ax2.plot(x, y, linewidth=3, color='white')
            line, = ax2.plot(x, y, linewidth=1, color=colors[8, 0])
            ok = np.logical_not(np.isnan(x))
            _label(ax2, line, x[ok], y[ok], labelpos, label, style)
    _finish(name)


def _cm(x):
    return np.divide(x, 10)


def displacements(instance, x, z, i='', **segments):
    """Wrap for dispalcements plot."""
    xc = _cm(x)
    u0, w, psi = instance.u(z, z0=0), instance.w(z), instance.psi(z)
    plot_data('disp%s' % i, [[xc, u0, r'$u_0\ (\mathrm{mm})$'], [xc, np.negative(w), r'$-w\ (\mathrm{mm})$'],
                              [xc, np.degrees(psi), r'$\psi\ (^\circ)$ ']], 'Displacements', **segments)


def section_forces(instance, x, z, i='', **segments):
    """Wrap section forces plot."""
    data = [[_cm(x), getattr(instance, q)(z), '$%s$' % q] for q in 'NMV']
    plot_data(f'forc{i}', data, r'Section forces', **segments)


def stresses(instance, x, z, i='', **segments):
    """Wrap stress plot."""
    data = []
    for label, f in ((r'$\tau$', instance.tau), (r'$\sigma$', instance.sig)):
        data += [(0.1*x, 1e3*f(z), label)]
    plot_data(name=f'stress{i}', ax1label=r'Stress (kPa)', ax1data=data, **segments)


def err_comp(da, Gdif, Ginc, mode=0):
    """Wrap energy release rate plot."""
    pairs = zip((Gdif, Ginc), (r'$\mathcal{G}$', r'$\bar{\mathcal{G}}$'))
    plot_data(
        xlabel=r'Crack length $\Delta a$ (cm)',
        ax1label=r'Energy release rate (J/m$^2$)',
        ax1data=[[_cm(da), g[mode]*1000, t] for g, t in pairs], name='err', vlines=False)


def err_modes(da, G, kind='inc'):
    """Wrap energy release rate plot."""
    label = {'inc': r'$\bar{\mathcal{G}}$'}.get(kind, r'$\mathcal{G}$')
    suffix = [r'$_\mathrm{I+I\!I}$', r'$_\mathrm{I}$', r'$_\mathrm{I\!I}$']
    data = [[_cm(da), 1e3*G[k, :], label + suffix[k]] for k in reversed(range(3))]
    plot_data(
        xlabel=r'Crack length $a$ (cm)',
        ax1label=r'Energy release rate (J/m$^2$)',
        ax1data=data, name='modes', vlines=False)


def fea_disp(instance, x, z, fea):
    """Wrap dispalcements plot."""
    xf = fea[:, 0]/10
    rev = fea[::-1]
    xc = x/10
    data = [
        [xf, -rev[:, 1], r'FEA $u_0$'], [xf, rev[:, 2], r'FEA $w_0$'], [xf, rev[:, 5]*180/np.pi, r'FEA $\psi$'],
        [xc, instance.u(z, z0=0), r'$u_0$'], [xc, -instance.w(z), r'$-w$'], [xc, instance.psi(z, unit='deg'), r'$\psi$']]
    plot_data(ax1label=r'Displacements (mm)', ax1data=data, name='fea_disp', labelpos=-50)


def save_plot(name):
    """Save."""
    if isnotebook():
        plt.show()
        return
    folder = os.path.join(os.getcwd(), 'plots')
    os.makedirs(folder, exist_ok=True)
    plt.savefig(os.path.join('plots', f'{name}.png'), bbox_inches='tight')


def _fields(instance, z, phi, dz, field, normalize, Usl, Wsl, xwl):
    flat = np.zeros(xwl.shape[0])
    if field in ('u', 'w'):
        slab = 1e4*(Usl if field == 'u' else Wsl)
        return slab, slab[-1], r'$u$ ($\mu$m)' if field == 'u' else r'$w$ ($\mu$m)'
    if field == 'Sxx':
        return instance.Sxx(z, phi, dz=dz), flat, r'$\sigma_{xx}$ (kPa)'
    if field == 'Txz':
        return instance.Txz(z, phi, dz=dz), instance.tau(z, unit='kPa'), r'$\tau_{xz}$ (kPa)'
    if field == 'Szz':
        return instance.Szz(z, phi, dz=dz), instance.sig(z, unit='kPa'), r'$\sigma_{zz}$ (kPa)'
    if field == 'principal':
        slab = instance.principal_stress_slab(z, phi, dz=dz, val='max', unit='kPa', normalize=normalize)
        weak = instance.principal_stress_weaklayer(z, val='min', unit='kPa', normalize=normalize)
        s, w = (r'$\sigma_\mathrm{I}/\sigma_+$ (slab),  ', r'$\sigma_\mathrm{I\!I\!I}/\sigma_-$ (weak layer)') if normalize else \
            (r'$\sigma_\mathrm{I}$ (kPa, slab),  ', r'$\sigma_\mathrm{I\!I\!I}$ (kPa, weak layer)')
        return slab, weak, s + w
    raise ValueError(f"Invalid input '{field}' for field.")


def deformed(instance, xsl, xwl, z, phi, dz=2, scale=100,
             window=np.inf, pad=2, levels=300, aspect=2,
             field='principal', normalize=True, dark=False,
             filename='cont'):
    """deformed"""
    _setup()
    if dark:
        plt.style.use('dark_background')
        fig, ax = plt.subplots()
        fig.set_facecolor('#282c34')
        ax.set_facecolor('white')
    zi = instance.get_zmesh(dz=dz)[:, 0]
    depth = 0.1*(zi + instance.h/2)
    Usl = np.array([instance.u(z, z0=z0, unit='cm') for z0 in zi])
    Wsl = np.tile(instance.w(z, unit='cm'), (len(zi), 1))
    if instance.system.startswith('skier'):
        xsl, xwl = xsl - np.max(xsl)/2, xwl - np.nanmax(xwl)/2 if np.isfinite(xwl).all() else xwl - max(xwl)/2
    Xsl, Zsl = np.meshgrid(xsl/10, depth)
    xfocus = xsl[np.argmax(Wsl, axis=1).max()]/10
    Xdef, Zdef = Xsl + scale*Usl, Zsl + scale*Wsl
    xmax = min(max(Xsl.max(), Xdef.max()) + pad, xfocus + window/2)
    xmin = max(min(Xsl.min(), Xdef.min()) - pad, xfocus - window/2)
    zmax = Zdef.max() + pad
    zmin = Zsl.min() - pad
    Xwl = np.vstack([xwl/10, xwl/10])
    Zwl = np.array([[depth[-1]]*len(xwl), [zmax]*len(xwl)])
    zero = np.zeros_like(Usl[-1])
    Xw, Zw = Xwl + scale*np.stack([Usl[-1], zero]), Zwl + scale*np.stack([Wsl[-1], zero])
    slab, weak, label = _fields(instance, z, phi, dz, field, normalize, Usl, Wsl, xwl)
    if field in ('Txz', 'Szz'):
        weak = np.where(np.isnan(xwl), np.nan, weak)
    weak = np.vstack((weak, weak))
    absmax = np.nanmax(np.abs([np.min(slab), np.max(slab), np.min(weak), np.max(weak)]))
    clim = np.round(absmax, significant_digits(absmax))
    levels = np.linspace(-clim, clim, levels + 1)
    ax = plt.gca()
    ax.axhline(zmax, color='k', linewidth=1)
    ax.plot(outline(Xsl), outline(Zsl), 'k--', alpha=0.3, linewidth=1)
    ax.plot(outline(Xdef), outline(Zdef), 'k', linewidth=1)
    if 'pst' in instance.system:
        ok = ~np.isnan(xwl)
        ax.plot(outline(Xw[:, ok]), outline(Zw[:, ok]), 'k', linewidth=1)
    cmap = plt.get_cmap('RdBu_r').copy() if False else plt.cm.RdBu_r
    cmap.set_over(adjust_lightness(cmap(1.0), 0.9))
    cmap.set_under(adjust_lightness(cmap(0.0), 0.9))
    for x, y, c in ((Xdef, Zdef, slab), (Xw, Zw, weak)):
        cs = ax.contourf(x, y, c, levels=levels, cmap=cmap, extend='both')
    ax.axis('scaled')
    ax.set_xlim(xmin, xmax)
    ax.set_ylim(zmin, zmax)
    ax.set_aspect(aspect)
    ax.invert_yaxis()
    ax.use_sticky_edges = False
    ax.set_xlabel(r'lateral position $x$ (cm) $\longrightarrow$')
    ax.set_ylabel('depth below surface\n' + r'$\longleftarrow $ $d$ (cm)')
    ax.set_title(fr'${scale}\!\times\!$ scaled deformations (cm)', size=10)
    plt.colorbar(cs, orientation='horizontal', ticks=np.linspace(levels[0], levels[-1], num=11),
                 label=label + r'  $\longrightarrow$', aspect=35)
    _finish(filename)


# @ tools.py
DENSITY_OF_ICE = 917


def calc_center_of_gravity(layers):
    """cog"""
    rho, h = np.asarray(layers)[:, :2].T
    H = np.sum(h)
    bottom = np.cumsum(h) - H/2
    mid = bottom - h/2
    return H, np.average(mid, weights=rho*h)


def calc_vertical_bc_center_of_gravity(slab, phi):
    """wedge"""
    t = np.tan(np.radians(phi))
    if phi == 0:
        return 0, 0, 0
    rho, hi = slab[:, 0]*1e-12, slab[:, 1]
    H = hi.sum()
    zii = np.cumsum(hi) - H/2
    zi = zii - hi
    Ai = 0.5*hi*(H - zi - zii)*t
    zsi = zi + hi/3*(1.5*H - zi - 2*zii)/(H - zi - zii)
    w = np.dot(rho, Ai)
    zs = np.dot(zsi*rho, Ai)/w
    return (H/2 - zs)*t/2, zs, w


def load_dummy_profile(profile_id):
    """profile"""
    material = {'s': [180.0, 120.0, 5], 'm': [270.0, 120.0, 30], 'h': [350.0, 120.0, 93.8]}
    names = {'a': 'hms', 'b': 'smh', 'c': 'hsh', 'd': 'shs', 'e': 'hss', 'f': 'ssh', 'h': 'mmm', 'soft': 'sss', 'medium': 'mmm', 'hard': 'hhh'}
    key = profile_id.lower()
    if key == 'comp':
        rows = [[240.0, 200.0, 5.23]]
    elif key in names:
        rows = [material[c] for c in names[key]]
    else:
        raise ValueError(f"Profile {profile_id} is not defined.")
    profile = np.array(rows)
    return profile[:, :2], profile[:, 2]


def scapozza(rho):
    """E"""
    return 5.07e3*np.power(rho/DENSITY_OF_ICE, 5.13)


def gerling(rho, C0=6.0, C1=4.6):
    """E"""
    return np.multiply(C0, np.power(rho, C1))/1e10


def bergfeld(rho, rho0=917, C0=6.5, C1=4.4):
    """E"""
    GPa = 1000
    return C0*GPa*np.float_power(np.true_divide(rho, rho0), C1)


def tensile_strength_slab(rho, unit="kPa"):
    """s"""
    kPa = 240*(rho/DENSITY_OF_ICE)**2.44
    if unit == 'kPa':
        return kPa
    if unit == 'MPa':
        return kPa/1000
    raise KeyError(unit)


def touchdown_distance(
    layers: np.ndarray | str | None = None,
    C0: float = 6.5,
    C1: float = 4.4,
    Ewl: float = 0.25,
    t: float = 10,
    phi: float = 0,
):
    """td"""
    model = weac.Layered(system="pst-", touchdown=True)
    model.set_foundation_properties(E=Ewl, t=t)
    model.set_beam_properties(layers=[[240, 200]] if layers is None or len(layers) == 0 else layers, C0=C0, C1=C1)
    model.calc_fundamental_system()
    length = 1e5
    model.calc_segments(L=length, a=0, phi=phi)
    first, full = model.calc_a1(), model.calc_a2()
    model.calc_segments(L=length, a=first*5, phi=phi)
    return first, full, model.calc_lC()
